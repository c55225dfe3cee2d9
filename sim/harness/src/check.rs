//! The seeded search: many simulated runs over all cores, evidence, shrinking and replay files.
use crate::gen::mix;
use crate::rt::*;
use crate::scen::*;
use crate::verify::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Simulated runs per check: (quick, thorough)
fn budget(prop: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 28_000,
        "C02" => 32_000,
        "C03" => 44_000,
        "C04" => 30_000,
        "C05" => 26_000,
        "C06" => 40_000,
        "C07" => 70_000,
        "C08" => 8_000,
        "C09" => 18_000,
        "C10" => 14_000,
        "C11" => 20_000,
        "C12" => 80_000,
        "C13" => 3_000,
        "C16" => 9_000,
        "C17" => 9_000,
        _ => 5_000,
    };
    (quick, quick * 200)
}

#[derive(Default, Clone, Serialize, Deserialize)]
struct Stats {
    runs: u64,
    void: u64,
    void_why: BTreeMap<String, u64>,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    preempts: u64,
    yields: u64,
    blocks: u64,
    wakes: u64,
    spurious: u64,
    stalls: u64,
    allocs: u64,
    io_ops: u64,
    clock_jumps: u64,
    fired: Vec<u64>,
    alloc_fired: u64,
    thread_fired: u64,
    policies: BTreeMap<String, u64>,
    workers: BTreeMap<u32, u64>,
    threads_max: u32,
    sched: BTreeSet<u64>,
    pcs: BTreeSet<u32>,
    nontrivial: BTreeSet<u64>,
    ref_steps_max: u64,
    run_steps_max: u64,
    longest_ms: u64,
    ratio_max: u64,
    peak_kb: u64,
    rechecked: u64,
    recheck_mismatch: u64,
    obs: Obs,
    samples: Vec<serde_json::Value>,
    violation: Option<(u64, String)>,
}
impl Stats {
    fn add(&mut self, ar: &Arena, o: &Obs, s: &Scenario) {
        let sh = ar.sh();
        self.runs += 1;
        self.steps += sh.steps;
        self.sim_ns += sh.sim_ns.saturating_sub(1_000_000_000);
        self.switches += sh.switches;
        self.preempts += sh.preempts;
        self.yields += sh.yields;
        self.blocks += sh.blocks;
        self.wakes += sh.wakes;
        self.spurious += sh.spurious;
        self.stalls += sh.stalls;
        self.allocs += sh.allocs;
        self.io_ops += sh.io_ops;
        self.clock_jumps += sh.clock_jumps;
        self.fired.resize(16, 0);
        for i in 0..16 {
            self.fired[i] += sh.fired[i];
        }
        self.ref_steps_max = self.ref_steps_max.max(o.ref_steps_max);
        self.run_steps_max = self.run_steps_max.max(sh.steps);
        if o.base_steps > 100_000 {
            self.ratio_max = self.ratio_max.max(sh.steps * 100 / o.base_steps);
        }
        self.alloc_fired += sh.alloc_fired;
        self.thread_fired += sh.thread_fired;
        let p = ["sequential", "random", "priority (PCT)", "replay"][sh.policy as usize];
        *self.policies.entry(p.into()).or_default() += 1;
        *self.workers.entry(s.sim.workers).or_default() += 1;
        self.threads_max = self.threads_max.max(sh.nthreads);
        self.sched.insert(sh.sched_hash);
        for e in &sh.trace[..(sh.ntrace as usize).min(3000)] {
            if e.kind == K_PREEMPT {
                self.pcs.insert(e.pc);
            }
        }
        if o.nontrivial {
            self.nontrivial.insert(mix(sh.ev_hash ^ sh.sched_hash, o.work_hash ^ sh.steps));
        }
        let b = &mut self.obs;
        macro_rules! acc { ($($f:ident),*) => { $( b.$f += o.$f; )* } }
        acc!(splits, leaves, models, rounds, rows_predicted, loads_ok, loads_failed, calls_ok, calls_failed, task_panics, task_sleeps, program_ok, program_failed, refs, aborted);
    }
    fn merge(&mut self, o: Stats) {
        macro_rules! acc { ($($f:ident),*) => { $( self.$f += o.$f; )* } }
        acc!(runs, void, steps, sim_ns, switches, preempts, yields, blocks, wakes, spurious, stalls, allocs, io_ops, clock_jumps, alloc_fired, thread_fired, rechecked, recheck_mismatch);
        self.fired.resize(16, 0);
        for (i, x) in o.fired.iter().enumerate() {
            self.fired[i] += x;
        }
        for (k, v) in o.policies {
            *self.policies.entry(k).or_default() += v;
        }
        for (k, v) in o.workers {
            *self.workers.entry(k).or_default() += v;
        }
        for (k, v) in o.void_why {
            *self.void_why.entry(k).or_default() += v;
        }
        self.threads_max = self.threads_max.max(o.threads_max);
        self.ref_steps_max = self.ref_steps_max.max(o.ref_steps_max);
        self.run_steps_max = self.run_steps_max.max(o.run_steps_max);
        self.longest_ms = self.longest_ms.max(o.longest_ms);
        self.ratio_max = self.ratio_max.max(o.ratio_max);
        self.peak_kb = self.peak_kb.max(o.peak_kb);
        self.sched.extend(o.sched);
        self.pcs.extend(o.pcs);
        self.nontrivial.extend(o.nontrivial);
        let (a, b) = (&mut self.obs, &o.obs);
        macro_rules! acc2 { ($($f:ident),*) => { $( a.$f += b.$f; )* } }
        acc2!(splits, leaves, models, rounds, rows_predicted, loads_ok, loads_failed, calls_ok, calls_failed, task_panics, task_sleeps, program_ok, program_failed, refs, aborted);
        self.samples.extend(o.samples);
        if let Some(v) = o.violation {
            if self.violation.as_ref().map_or(true, |x| v.0 < x.0) {
                self.violation = Some(v);
            }
        }
    }
}

fn scenario(prop: &str, base: u64, i: u64) -> Scenario {
    let tag = prop.bytes().fold(0u64, |a, b| a.wrapping_mul(257).wrapping_add(b as u64));
    generate(prop, mix(mix(base, tag), i))
}

fn slot_main(prop: &str, base: u64, slot: u64, slots: u64, runs: u64, deadline: Instant, lowest: &AtomicU64) -> Stats {
    pin(slot as usize);
    let runner = Runner::new(&format!("{}-{}", std::process::id(), slot));
    let mut st = Stats::default();
    let mut i = slot;
    let slow_ms = env_u64("SIM_SLOW_MS", 0);
    while i < runs && Instant::now() < deadline && i < lowest.load(SeqCst) {
        let s = scenario(prop, base, i);
        let mut obs = Obs::default();
        let t_run = Instant::now();
        let (out, s2) = runner.run(&s, None, &mut obs);
        st.longest_ms = st.longest_ms.max(t_run.elapsed().as_millis() as u64);
        if slow_ms > 0 && t_run.elapsed().as_millis() as u64 > slow_ms {
            eprintln!("run {} took {:?}, {} steps, {} switches", i, t_run.elapsed(), runner.ar.sh().steps, runner.ar.sh().switches);
        }
        match out {
            Outcome::Held => {
                st.add(&runner.ar, &obs, &s2);
                if st.runs % 97 == 3 {
                    // same seed, same execution: re-run and compare the event history
                    let sh = runner.ar.sh();
                    let (h, n, stp) = (sh.ev_hash, sh.ntrace, sh.steps);
                    if !s2.program && sh.alloc_fired == 0 {
                        crate::exec::execute(&runner.ar, &s2, &runner.dir, None, 100);
                        let sh = runner.ar.sh();
                        st.rechecked += 1;
                        if (h, n, stp) != (sh.ev_hash, sh.ntrace, sh.steps) {
                            st.recheck_mismatch += 1;
                        }
                    }
                }
                if st.samples.is_empty() && st.runs > 3 {
                    let sh = runner.ar.sh();
                    st.samples.push(serde_json::json!({
                        "run": i, "seed": s2.sim.seed, "workers": s2.sim.workers, "calls": s2.all_ops().iter().map(|o| describe(o, &s2)).collect::<Vec<_>>(),
                        "steps": sh.steps, "switches": sh.switches, "preemptions": sh.preempts, "threads": sh.nthreads,
                        "first_decisions": sh.trace[..(sh.ntrace as usize).min(6)].iter().map(|e| format!("{} t{}->{} @{}", kind_name(e.kind), e.tid, e.to, e.key)).collect::<Vec<_>>(),
                        "verdict": "held"
                    }));
                }
            }
            Outcome::Violated(v) => {
                st.add(&runner.ar, &obs, &s2);
                st.violation = Some((i, v.msg));
                lowest.fetch_min(i, SeqCst);
                break;
            }
            Outcome::Void(w) => {
                st.void += 1;
                *st.void_why.entry(w).or_default() += 1;
            }
        }
        i += slots;
    }
    st.peak_kb = PEAK_KB.load(SeqCst);
    runner.cleanup();
    st
}

pub fn kind_name(k: u8) -> &'static str {
    ["?", "preempt", "yield", "block", "exit", "wake", "spurious-wake", "io-fault", "alloc-fault", "thread-fault", "clock"].get(k as usize).copied().unwrap_or("?")
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let (q, th) = budget(prop);
    let runs = env_u64("SIM_RUNS", if thorough() { th } else { q });
    let cap = env_u64("SIM_CAP_S", if thorough() { 3600 } else { 150 });
    let slots = env_u64("SIM_SLOTS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).min(8));
    let deadline = t0 + Duration::from_secs(cap);
    let lowest: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    lowest.store(u64::MAX, SeqCst);
    let mut pipes = vec![];
    for slot in 0..slots {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                let st = slot_main(prop, base, slot, slots, runs, deadline, lowest);
                let b = serde_json::to_vec(&st).unwrap();
                let mut f = <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(fds[1]);
                f.write_all(&b).unwrap();
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut total = Stats::default();
    let mut broken = 0;
    for (pid, fd) in pipes {
        let mut v = vec![];
        let mut f = unsafe { <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(fd) };
        f.read_to_end(&mut v).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Stats>(&v) {
            Ok(s) => total.merge(s),
            Err(_) => broken += 1,
        }
    }
    let mut code = 0;
    let violated = total.violation.clone();
    if let Some((i, msg)) = &violated {
        println!("run {} (seed {}): {}", i, base, msg);
        // shrinking is a convenience: if it fails, the unshrunk run is the replay file
        let path = match std::panic::catch_unwind(|| shrink_and_save(prop, base, *i, msg)) {
            Ok(p) => p,
            Err(_) => {
                println!("note: shrinking failed; the original run is reported unshrunk");
                save_replay(prop, base, *i, msg.clone(), scenario(prop, base, *i), None, 0)
            }
        };
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    } else if broken > 0 {
        eprintln!("{} search processes died", broken);
        code = 2;
    } else if total.runs == 0 {
        eprintln!("no run completed: {:?}", total.void_why);
        code = 2;
    }
    write_evidence(prop, base, &total, t0.elapsed().as_secs_f64(), violated.is_some() as u64, runs);
    if code == 0 {
        println!(
            "property {}: held in {} simulated runs ({} distinct schedules, {} preemptions, {} void) in {:.1} s",
            prop, total.runs, total.sched.len(), total.preempts, total.void, t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn write_evidence(prop: &str, base: u64, t: &Stats, wall: f64, viol: u64, planned: u64) {
    let fault_names = ["", "read interrupted (EINTR)", "short read", "read error (EIO)", "file truncated while read", "open failed", "stdout interrupted", "stdout short write", "stdout error (EIO/ENOSPC/EPIPE)"];
    let mut faults = BTreeMap::new();
    for i in 1..9 {
        faults.insert(fault_names[i], t.fired.get(i).copied().unwrap_or(0));
    }
    faults.insert("spurious futex wake", t.spurious);
    faults.insert("thread stall", t.stalls);
    faults.insert("allocation failure", t.alloc_fired);
    faults.insert("thread creation failure", t.thread_fired);
    faults.insert("clock jump", t.clock_jumps);
    faults.insert("panicking task", t.obs.task_panics);
    faults.insert("sleeping task", t.obs.task_sleeps);
    let mut o = serde_json::to_value(&t.obs).unwrap();
    if let Some(m) = o.as_object_mut() {
        m.remove("work_hash");
        m.remove("ref_steps_max");
        m.remove("base_steps");
        m.remove("nontrivial");
        m.retain(|_, v| v.as_u64().map_or(true, |x| x > 0));
    }
    let per_h = |x: u64| (x as f64 / wall * 3600.0) as u64;
    let ev = serde_json::json!({
        "property": prop, "tier": if thorough() { "thorough" } else { "quick" }, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": "one evaluation = one seeded scenario (workload, schedule policy, fault plan) executed once under the simulator; non-trivial = at least one context switch or injected fault happened; distinct = different event history or results",
            "samples": t.samples.iter().take(4).collect::<Vec<_>>(),
            "planned_runs": planned,
            "runs_without_verdict": t.void, "runs_without_verdict_reasons": t.void_why,
            "runs_per_hour_one_seed_each": per_h(t.runs),
            "reference_runs": t.obs.refs,
            "largest_reference_run_steps": t.ref_steps_max, "largest_run_steps": t.run_steps_max, "longest_scenario_ms": t.longest_ms, "largest_run_steps_over_reference_steps": t.ratio_max as f64 / 100.0, "largest_process_mb": t.peak_kb / 1024,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "scheduling_points_executed": t.steps,
            "context_switches": t.switches, "preemptions": t.preempts, "yields": t.yields, "blocking_waits": t.blocks, "futex_wakes": t.wakes,
            "distinct_schedules": t.sched.len(),
            "distinct_schedules_measure": "hash over the sequence of (thread switched from, thread switched to, code address) of every switch in a run",
            "distinct_preemption_code_addresses": t.pcs.len(),
            "threads_in_one_run_max": t.threads_max,
            "schedule_policies": t.policies, "worker_counts": t.workers,
            "faults_injected": faults, "io_operations": t.io_ops, "allocations": t.allocs,
            "observations": o,
            "determinism_recheck": { "runs_executed_twice": t.rechecked, "differing": t.recheck_mismatch },
            "real_components": ["repository crates (common, multi-target-decision-tree, multi-target-grad-boost, main)", "rayon, rayon-core, crossbeam", "csv, serde", "Rust standard library", "kernel file system (scratch directory in /dev/shm)"],
            "simulated_components": ["thread scheduling, futex, thread creation and exit", "clocks and sleeps", "randomness", "CPU count and affinity", "read/open/write results of data files and standard output", "allocation failure"]
        },
        "assumptions": [
            "sequentially consistent memory: weak-memory reorderings are not simulated",
            "instructions of the precompiled standard library run without preemption between its intercepted calls",
            "datasets without NaN or infinite values"
        ],
        "wall_s": wall, "violations": viol
    });
    let p = format!("{}/evidence/{}.json", verif_dir(), prop);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence file");
}

// ------------------------------------------------------------------ shrinking and replay

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    message: String,
    seed: u64,
    run: u64,
    scenario: Scenario,
    /// [kind, thread, to, key, argument]: see kinds
    trace: Vec<(u8, u8, u16, u64, u32)>,
    ev_hash: String,
    kinds: String,
    calls: Vec<String>,
    /// no schedule is recorded: the scenario's own seed repeats it
    #[serde(default)]
    by_seed: bool,
}

fn try_run(r: &Runner, s: &Scenario, trace: Option<&[Ev]>) -> Option<(String, Scenario)> {
    let mut o = Obs::default();
    match r.run(s, trace, &mut o) {
        (Outcome::Violated(v), s2) => Some((v.msg, s2)),
        _ => None,
    }
}
/// Does some schedule of this scenario still violate? Returns the scenario with the seed that does.
fn still(r: &Runner, s: &Scenario, tries: u64, deadline: Instant) -> Option<(String, Scenario)> {
    for k in 0..tries {
        if Instant::now() > deadline {
            return None;
        }
        let mut c = s.clone();
        c.sim.max_steps = 0;
        c.sim.pct_len = 0;
        if c.sim.alloc_frac > 0 {
            c.sim.alloc_fail_at = 0;
        }
        if k > 0 {
            c.sim.seed = mix(s.sim.seed, k);
        }
        if let Some(x) = try_run(r, &c, None) {
            return Some(x);
        }
    }
    None
}

fn candidates(s: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut c = s.clone();
        f(&mut c);
        if c != *s {
            v.push(c);
        }
    };
    // schedule-independent? try the plain sequential schedule on one worker first
    push(&|c| {
        c.sim.policy = POL_SEQ;
        c.sim.sync_den = 0;
        c.sim.mem_mean = 0;
        c.sim.spur_den = 0;
        c.sim.stall_den = 0;
        c.sim.workers = 1;
        c.sim.clock_jump = 0;
    });
    for i in 0..s.clients.len() {
        if s.clients.len() > 1 {
            push(&|c| {
                c.clients.remove(i);
            });
        }
        for j in 0..s.clients[i].ops.len() {
            if s.clients[i].ops.len() > 1 {
                push(&|c| {
                    c.clients[i].ops.remove(j);
                });
            }
        }
        push(&|c| c.clients[i].nested = false);
    }
    push(&|c| c.post.clear());
    let uses_model = |m: usize| s.all_ops().iter().any(|o| matches!(o, Op::Use { model, .. } | Op::Print { model, .. } if *model == m));
    if !s.setup.is_empty() && !uses_model(s.setup.len() - 1) {
        push(&|c| {
            c.setup.pop();
        });
    }
    for (a, b) in [(0usize, 1u32), (1, 2), (2, 3)] {
        let _ = a;
        if s.sim.workers > b {
            push(&|c| c.sim.workers = b);
        }
    }
    push(&|c| c.sim.spur_den = 0);
    push(&|c| c.sim.stall_den = 0);
    push(&|c| c.sim.clock_jump = 0);
    push(&|c| c.sim.io_short = 0);
    push(&|c| c.sim.io_eintr = 0);
    push(&|c| c.sim.io_eio = 0);
    push(&|c| c.sim.io_trunc = 0);
    push(&|c| c.sim.io_open = 0);
    push(&|c| c.sim.w_short = 0);
    push(&|c| c.sim.w_eintr = 0);
    push(&|c| c.sim.w_err = 0);
    push(&|c| {
        c.sim.alloc_fail_at = 0;
        c.sim.alloc_frac = 0;
    });
    push(&|c| c.sim.alloc_fail_n = c.sim.alloc_fail_n.min(1));
    push(&|c| if c.repeat > 4 { c.repeat = 4 });
    push(&|c| if c.passes > 1 { c.passes = (c.passes / 2).max(1) });
    push(&|c| c.sim.thread_fail_at = 0);
    let map_ops = |c: &mut Scenario, f: &dyn Fn(&mut Op)| {
        for o in c.setup.iter_mut() {
            f(o);
        }
        for cl in c.clients.iter_mut() {
            for o in cl.ops.iter_mut() {
                f(o);
            }
        }
        for o in c.post.iter_mut() {
            f(o);
        }
    };
    push(&|c| map_ops(c, &|o| if let Op::Train(t) = o { t.iters = (t.iters / 2).max(t.iters.min(1)) }));
    push(&|c| map_ops(c, &|o| if let Op::Train(t) = o { t.iters = t.iters.saturating_sub(1) }));
    push(&|c| map_ops(c, &|o| if let Op::Train(t) = o { t.levels /= 2 }));
    push(&|c| map_ops(c, &|o| if let Op::Train(t) = o { t.levels = t.levels.saturating_sub(1) }));
    push(&|c| map_ops(c, &|o| if let Op::Train(t) = o { t.fault = None }));
    push(&|c| map_ops(c, &|o| if let Op::Train(t) = o { t.misdeclared = 0 }));
    push(&|c| map_ops(c, &|o| if let Op::Train(t) = o { t.then = None }));
    push(&|c| map_ops(c, &|o| if let Op::Use { n, .. } = o { *n = (*n / 2).max(1) }));
    for i in 0..s.data.len() {
        let d = &s.data[i];
        if !s.all_ops().iter().any(|o| match o {
            Op::Train(t) => t.data == i,
            Op::Part { data, .. } => *data == i,
            _ => false,
        }) {
            continue;
        }
        push(&|c| c.data[i].bad = 0);
        let rows: Vec<u32> = d.rows.clone().unwrap_or_else(|| (0..d.n as u32).collect());
        let cols: Vec<u32> = d.cols.clone().unwrap_or_else(|| (0..d.f as u32).collect());
        let mut cut = |v: &Vec<u32>, is_row: bool| {
            let mut size = v.len() / 2;
            let mut made = 0;
            while size >= 1 && v.len() > 1 && made < 24 {
                let mut at = 0;
                while at < v.len() && made < 24 {
                    let mut w = v.clone();
                    w.drain(at..(at + size).min(v.len()));
                    if !w.is_empty() {
                        push(&|c| {
                            if is_row {
                                c.data[i].rows = Some(w.clone())
                            } else {
                                c.data[i].cols = Some(w.clone())
                            }
                        });
                        made += 1;
                    }
                    at += size;
                }
                size /= 2;
            }
        };
        cut(&cols, false);
        cut(&rows, true);
    }
    for i in 0..s.files.len() {
        if !s.program {
            push(&|c| c.files[i].rows /= 2);
            push(&|c| c.files[i].cols = (c.files[i].cols / 2).max(if c.files[i].classes > 0 { 2 } else { 1 }));
        }
        push(&|c| c.files[i].flavor = 0);
    }
    v
}

fn shrink_and_save(prop: &str, base: u64, i: u64, msg0: &str) -> String {
    let runner = Runner::new(&format!("{}-shrink", std::process::id()));
    let mut msg = msg0.to_string();
    let mut best = scenario(prop, base, i);
    let t_end = Instant::now() + Duration::from_secs(env_u64("SIM_SHRINK_S", 60));
    let t_first = Instant::now();
    let first = try_run(&runner, &best, None);
    // an execution that runs into its step limit is too slow to repeat many times
    let slow = t_first.elapsed() > Duration::from_secs(12);
    match first {
        Some((m, s2)) => {
            msg = m;
            best = s2;
        }
        None => {
            println!("note: the violation did not recur in a fresh process; the original seed is reported unshrunk");
            runner.cleanup();
            return save_replay(prop, base, i, msg, best, None, 0);
        }
    }
    if slow {
        let hash = runner.ar.sh().ev_hash;
        runner.cleanup();
        return save_replay(prop, base, i, msg, best, None, hash);
    }
    'outer: loop {
        for c in candidates(&best) {
            if Instant::now() > t_end {
                break 'outer;
            }
            let tries = if c.sim.policy == POL_SEQ { 1 } else { 5 };
            if let Some((m, c2)) = still(&runner, &c, tries, t_end) {
                msg = m;
                best = c2;
                continue 'outer;
            }
        }
        break;
    }
    // record the schedule of the shrunk scenario, then thin it out
    let mut trace: Vec<Ev> = vec![];
    let grab = |r: &Runner| -> Vec<Ev> {
        let sh = r.ar.sh();
        sh.trace[..sh.ntrace as usize].iter().filter(|e| e.kind <= K_IOFAULT).cloned().collect()
    };
    if try_run(&runner, &best, None).is_some() {
        trace = grab(&runner);
        if try_run(&runner, &best, Some(&trace)).is_some() {
            let t2 = Instant::now() + Duration::from_secs(env_u64("SIM_DDMIN_S", 40));
            let mut n = 2usize;
            while trace.len() >= 1 && Instant::now() < t2 {
                let chunk = (trace.len() + n - 1) / n;
                let mut reduced = false;
                let mut at = 0;
                while at < trace.len() && Instant::now() < t2 {
                    let mut c = trace.clone();
                    c.drain(at..(at + chunk).min(c.len()));
                    if let Some((m, _)) = try_run(&runner, &best, Some(&c)) {
                        trace = c;
                        msg = m;
                        reduced = true;
                    } else {
                        at += chunk;
                    }
                }
                if !reduced {
                    if chunk == 1 {
                        break;
                    }
                    n = (n * 2).min(trace.len());
                } else {
                    n = n.max(2).min(trace.len().max(1));
                    if trace.is_empty() {
                        break;
                    }
                }
            }
        } else {
            println!("note: the recorded schedule does not reproduce the violation");
        }
    }
    let hash = match try_run(&runner, &best, Some(&trace)) {
        Some((m, _)) => {
            msg = m;
            runner.ar.sh().ev_hash
        }
        None => 0,
    };
    println!("minimised: {}", msg);
    println!(
        "  {} call(s), {} worker(s), {} scheduling decision(s) and fault(s) in the replay file",
        best.n_ops(),
        best.sim.workers,
        trace.len()
    );
    for o in best.all_ops() {
        println!("  - {}", describe(o, &best));
    }
    let path = save_replay(prop, base, i, msg, best, Some(&trace), hash);
    runner.cleanup();
    path
}

fn save_replay(prop: &str, base: u64, i: u64, msg: String, best: Scenario, trace: Option<&[Ev]>, hash: u64) -> String {
    let rf = ReplayFile {
        property: prop.into(),
        message: msg,
        seed: base,
        run: i,
        calls: best.all_ops().iter().map(|o| describe(o, &best)).collect(),
        scenario: best,
        by_seed: trace.is_none(),
        trace: trace.unwrap_or(&[]).iter().map(|e| (e.kind, e.tid, e.to, e.key, e.pc)).collect(),
        ev_hash: format!("{:016x}", hash),
        kinds: "1 preempt, 2 yield, 3 block, 4 exit, 6 spurious wake: at the thread's step `key` switch to thread `to`; 7 I/O fault `to` at I/O operation `key`".into(),
    };
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-seed{}-run{}.json", dir, prop, base, i);
    std::fs::write(&path, serde_json::to_string(&rf).unwrap()).expect("replay file");
    path
}

pub fn replay(path: &str) -> i32 {
    let rf: ReplayFile = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file format");
    let runner = Runner::new(&format!("{}-replay", std::process::id()));
    let trace: Vec<Ev> = rf.trace.iter().map(|t| Ev { kind: t.0, tid: t.1, to: t.2, key: t.3, pc: t.4 }).collect();
    let mut code = 0;
    let mut o = Obs::default();
    match runner.run(&rf.scenario, if rf.by_seed { None } else { Some(&trace) }, &mut o).0 {
        Outcome::Violated(v) => {
            let h = format!("{:016x}", runner.ar.sh().ev_hash);
            println!("{}", v.msg);
            println!("same message: {}; same execution: {} ({} vs {})", v.msg == rf.message, h == rf.ev_hash, h, rf.ev_hash);
            println!("VIOLATION property={} replay={}", rf.property, path);
            code = 1;
        }
        Outcome::Held => println!("property {} held on this replay", rf.property),
        Outcome::Void(w) => {
            println!("no verdict: {}", w);
            code = 2;
        }
    }
    runner.cleanup();
    code
}

pub fn one(prop: &str, i: u64) -> i32 {
    let base = env_u64("VERIF_SEED", 1);
    let runner = Runner::new(&format!("{}-one", std::process::id()));
    let s = scenario(prop, base, i);
    println!("{}", serde_json::to_string(&s).unwrap());
    let mut o = Obs::default();
    let t = Instant::now();
    let (out, _) = runner.run(&s, None, &mut o);
    let sh = runner.ar.sh();
    println!("{}", serde_json::to_string(&o).unwrap());
    println!("steps {} switches {} preempts {} trace {} threads {} hash {:x} in {:?}", sh.steps, sh.switches, sh.preempts, sh.ntrace, sh.nthreads, sh.ev_hash, t.elapsed());
    match out {
        Outcome::Held => println!("held"),
        Outcome::Violated(v) => println!("violated: {}", v.msg),
        Outcome::Void(w) => println!("void: {}", w),
    }
    runner.cleanup();
    0
}

/// Every run twice, in different processes: identical event histories, and the recorded
/// schedule replays to the same history.
pub fn selfcheck(prop: &str, n: u64) -> i32 {
    let base = env_u64("VERIF_SEED", 1);
    let runner = Runner::new(&format!("{}-self", std::process::id()));
    let mut bad = 0;
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let s = scenario(prop, base, i);
        let mut o = Obs::default();
        let (_, s) = runner.run(&s, None, &mut o);
        let a = {
            let sh = runner.ar.sh();
            (sh.ev_hash, sh.ntrace, sh.steps, sh.sched_hash)
        };
        let trace: Vec<Ev> = {
            let sh = runner.ar.sh();
            sh.trace[..sh.ntrace as usize].iter().filter(|e| e.kind <= K_IOFAULT).cloned().collect()
        };
        let over = runner.ar.sh().trace_overflow;
        seen.insert(a.3);
        runner.run(&s, None, &mut o);
        let b = {
            let sh = runner.ar.sh();
            (sh.ev_hash, sh.ntrace, sh.steps, sh.sched_hash)
        };
        if a != b {
            println!("run {}: {:?} then {:?}", i, a, b);
            bad += 1;
        }
        if over == 0 {
            runner.run(&s, Some(&trace), &mut o);
            let c = {
                let sh = runner.ar.sh();
                (sh.ev_hash, sh.ntrace, sh.steps, sh.sched_hash)
            };
            if a != c {
                println!("run {}: replay {:?} vs {:?}", i, c, a);
                bad += 1;
            }
        }
    }
    println!("{} runs, {} schedules, {} mismatches", n, seen.len(), bad);
    runner.cleanup();
    (bad > 0) as i32
}
