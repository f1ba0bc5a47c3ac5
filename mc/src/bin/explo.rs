//! Checks of the exploration process: E01.. (see /verif/DESIGN.md).
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::{AbstractPriorities, GenericProcessPriorities};
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::manager::logger::AbstractProcessLogger;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use graph_process_manager_loggers::stepstrace::logger::GenericStepsTraceLogger;

use hibou::core::colocalizations::CoLocalizations;
use hibou::core::language::syntax::interaction::Interaction;
use hibou::io::input::htf::interface::parse_htf_file;
use hibou::loggers::tracegen::printer::{MultiTraceProcessPrinter, TracegenProcessLoggerGeneration};
use hibou::process::explo::conf::{ExplorationConfig, ExplorationStaticLocalVerdictAnalysisProof};
use hibou::process::explo::context::{ExplorationContext, ExplorationParameterization};
use hibou::process::explo::filter::elim::ExplorationFilterEliminationKind;
use hibou::process::explo::filter::filter::{ExplorationFilter, ExplorationFilterCriterion};
use hibou::process::explo::node::ExplorationNodeKind;
use hibou::process::explo::priorities::ExplorationPriorities;
use hibou::process::explo::step::ExplorationStepKind;
use hibou::process::explo::verdict::global::ExplorationGlobalVerdict;
use hibou::process::explo::verdict::local::ExplorationLocalVerdict;

use mc::cli::Cli;
use mc::hif::Names;
use mc::lang::*;
use mc::report::*;
use mc::rngctl;
use mc::scratch::Scratch;
use mc::universe::*;

#[derive(Default)]
struct Log {
    nodes: BTreeMap<u32, Interaction>,
    /// origin, target, letter, priority of the step
    edges: Vec<(u32, u32, Letter, i32, u32)>,
    dead: BTreeSet<u32>,
    accepting: BTreeSet<u32>,
    filtered: u64,
    ended: bool,
}

struct Rec {
    log: Arc<Mutex<Log>>,
    prio: (i32, i32, i32, i32),
}

impl AbstractProcessLogger<ExplorationConfig> for Rec {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn log_initialize(&mut self) {}
    fn log_parameterization(&mut self, _: &QueueSearchStrategy, _: &GenericProcessPriorities<ExplorationPriorities>,
                            _: &[Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>],
                            _: &Option<ExplorationGlobalVerdict>, _: bool, _: &ExplorationParameterization) {}
    fn log_filtered(&mut self, _: &ExplorationContext, _: u32, _: u32, _: &ExplorationFilterEliminationKind) {
        self.log.lock().unwrap().filtered += 1;
    }
    fn log_new_node(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, id: u32, n: &ExplorationNodeKind) {
        self.log.lock().unwrap().nodes.insert(id, n.interaction.clone());
    }
    fn log_new_step(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, o: u32, tgt: u32, s: &ExplorationStepKind, _: &ExplorationNodeKind, d: u32) {
        let p = ExplorationPriorities::new(self.prio.0, self.prio.1, self.prio.2, self.prio.3).get_priority_of_step(s);
        match s {
            ExplorationStepKind::Execute(f) => self.log.lock().unwrap().edges.push((o, tgt, f.target_actions.clone(), p, d)),
        }
    }
    fn log_verdict_on_no_child(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, id: u32, v: &ExplorationLocalVerdict) {
        let mut g = self.log.lock().unwrap();
        match v {
            ExplorationLocalVerdict::Accepting => g.accepting.insert(id),
            ExplorationLocalVerdict::DeadLocked => g.dead.insert(id),
        };
    }
    fn log_verdict_on_static_analysis(&mut self, _: &ExplorationContext, _: &ExplorationParameterization, id: u32, v: &ExplorationLocalVerdict, _: &ExplorationStaticLocalVerdictAnalysisProof) {
        let mut g = self.log.lock().unwrap();
        match v {
            ExplorationLocalVerdict::Accepting => g.accepting.insert(id),
            ExplorationLocalVerdict::DeadLocked => g.dead.insert(id),
        };
    }
    fn log_terminate(&mut self, _: &ExplorationGlobalVerdict) {
        self.log.lock().unwrap().ended = true;
    }
    fn log_notify_terminal_node_reached(&mut self, _: &ExplorationContext, _: u32) {}
    fn log_notify_last_child_of_node_processed(&mut self, _: &ExplorationContext, _: u32) {}
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Bfs,
    Dfs,
    Hcs,
}
const STS: [St; 3] = [St::Bfs, St::Dfs, St::Hcs];

#[derive(Clone, Debug)]
struct Opts {
    st: St,
    prio: (i32, i32, i32, i32),
    randomize: bool,
    memo: bool,
    depth: Option<u32>,
    lp: Option<u32>,
    nodes: Option<u32>,
}

fn opts() -> Opts {
    Opts { st: St::Bfs, prio: (0, 0, 0, 0), randomize: false, memo: false, depth: None, lp: None, nodes: None }
}

struct Run {
    log: Log,
    count: u32,
    verdict: ExplorationGlobalVerdict,
}

fn run(i: &Interaction, lfs: usize, mss: usize, o: &Opts, extra: Option<Box<dyn AbstractProcessLogger<ExplorationConfig>>>) -> Run {
    let log = Arc::new(Mutex::new(Log::default()));
    let st = match o.st {
        St::Bfs => QueueSearchStrategy::BFS,
        St::Dfs => QueueSearchStrategy::DFS,
        St::Hcs => QueueSearchStrategy::HCS,
    };
    let delegate: GenericProcessDelegate<ExplorationStepKind, ExplorationNodeKind, ExplorationPriorities> =
        GenericProcessDelegate::new(st, GenericProcessPriorities::new(ExplorationPriorities::new(o.prio.0, o.prio.1, o.prio.2, o.prio.3), o.randomize));
    let mut filters: Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion, ExplorationFilterEliminationKind>>> = vec![];
    if let Some(d) = o.depth {
        filters.push(Box::new(ExplorationFilter::MaxProcessDepth(d)));
    }
    if let Some(d) = o.lp {
        filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(d)));
    }
    if let Some(d) = o.nodes {
        filters.push(Box::new(ExplorationFilter::MaxNodeNumber(d)));
    }
    let mut loggers: Vec<Box<dyn AbstractProcessLogger<ExplorationConfig>>> = vec![Box::new(Rec { log: log.clone(), prio: o.prio })];
    loggers.extend(extra);
    let mut m: GenericProcessManager<ExplorationConfig> = GenericProcessManager::new(
        ExplorationContext::new(gen_ctx(lfs, mss)), ExplorationParameterization {}, delegate, filters, loggers, None, o.memo);
    let (count, verdict) = m.start_process(ExplorationNodeKind::new(i.clone(), 0));
    drop(m);
    let log = std::mem::take(&mut *log.lock().unwrap());
    Run { log, count, verdict }
}

/// all words of length <= k labelling paths of the explored graph, with the nodes they reach
fn paths(r: &Run, k: usize, lx: &mut Lx) -> BTreeMap<Word, BTreeSet<u32>> {
    let mut succ: HashMap<u32, Vec<(u8, u32)>> = HashMap::new();
    for (o, t, l, _, _) in &r.log.edges {
        let id = lx.id(l);
        succ.entry(*o).or_default().push((id, *t));
    }
    let mut out: BTreeMap<Word, BTreeSet<u32>> = BTreeMap::new();
    let mut layer: BTreeMap<Word, BTreeSet<u32>> = BTreeMap::new();
    layer.insert(0, [1u32].into_iter().collect());
    for n in 0..=k {
        let mut next: BTreeMap<Word, BTreeSet<u32>> = BTreeMap::new();
        if n < k {
            for (w, ns) in &layer {
                for x in ns {
                    if let Some(v) = succ.get(x) {
                        for (a, t) in v {
                            next.entry(cat(*w, n, *a as u64)).or_default().insert(*t);
                        }
                    }
                }
            }
        }
        out.extend(layer);
        layer = next;
    }
    out
}

fn accepted(r: &Run, p: &BTreeMap<Word, BTreeSet<u32>>, k: usize) -> Lang {
    let mut v: Lang = p.iter().filter(|(w, ns)| wlen(**w) <= k && ns.iter().any(|n| r.log.accepting.contains(n))).map(|x| *x.0).collect();
    v.sort_unstable();
    v
}

fn prefixes(l: &Lang) -> Lang {
    let mut v: BTreeSet<Word> = BTreeSet::new();
    v.insert(0);
    for w in l {
        for n in 0..=wlen(*w) {
            v.insert(if n >= 8 { *w } else { *w & ((1u64 << (8 * n)) - 1) });
        }
    }
    if l.is_empty() {
        v.clear();
        v.insert(0);
    }
    v.into_iter().collect()
}

fn ops(lfs: usize) -> Vec<Op> {
    let mut v = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par];
    for l in 0..lfs.min(2) {
        v.push(Op::CoReg(vec![l]));
    }
    v
}

fn universe(id: &str, th: bool) -> Multi {
    let mut parts = vec![];
    let mut all = atoms_single(3, 2);
    all.extend(atoms_comm(3, 2, true));
    all.extend(atoms_exotic());
    let small = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_em(2, 0), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true), a_empty()];
    let syncs = vec![Op::Sync(vec![em(0, 0)]), Op::Sync(vec![em(0, 0), rc(1, 0)])];
    parts.push(Universe::new("1 leaf, all action forms, <=2 loops", 3, 1, all.clone(), 1, vec![], 0, 2, true));
    let mut o2 = ops(3);
    if id != "E05" && id != "C02" {
        o2.extend(syncs.clone());
    }
    match id {
        "E01" | "E04" => {
            parts.push(Universe::new("2 leaves, all action forms, <=1 loop", 3, 2, all, 2, o2.clone(), 0, 1, true));
            parts.push(Universe::new("2 leaves, 2 loops", 3, 1, small.clone(), 2, o2.clone(), 2, 2, true));
            parts.push(Universe::new("3 leaves, no loop", 3, 1, small.clone(), 3, o2.clone(), 0, 0, true));
            let l3 = if th { small.clone() } else { small[0..4].to_vec() };
            parts.push(Universe::new("3 leaves, 1 loop", 3, 1, l3, 3, o2.clone(), 1, 1, true));
            if th {
                parts.push(Universe::new("4 leaves, no loop", 3, 1, small[0..5].to_vec(), 4, o2, 0, 0, true));
            }
        }
        "C02" => {
            parts.push(Universe::new("2 leaves, <=1 loop", 3, 1, small.clone(), 2, ops(2), 0, 1, true));
            parts.push(Universe::new("3 leaves, no loop", 2, 1, if th { small.iter().enumerate().filter(|x| x.0 != 3).map(|x| x.1.clone()).collect() } else { vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], false)] }, 3, if th { ops(2) } else { vec![Op::Strict, Op::Seq, Op::Alt, Op::Par] }, 0, 0, true));
        }
        "E02" => {
            parts.push(Universe::new("2 leaves, <=2 loops", 3, 1, small.clone(), 2, o2.clone(), 0, 2, true));
            parts.push(Universe::new("3 leaves, <=1 loop", 3, 1, if th { small[0..4].to_vec() } else { small[0..3].to_vec() }, 3, if th { ops(2) } else { ops(1) }, 0, 1, true));
        }
        _ => {
            parts.push(Universe::new("2 leaves, <=1 loop", 3, 1, small.clone(), 2, o2.clone(), 0, if th { 2 } else { 1 }, true));
            parts.push(Universe::new("3 leaves, no loop", 3, 1, if th { small.clone() } else { vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_comm(0, 0, &[1], true)] }, 3, o2.clone(), 0, 0, true));
            if th {
                parts.push(Universe::new("3 leaves, 1 loop", 2, 1, vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false)], 3, ops(1), 1, 1, true));
            }
        }
    }
    Multi { parts }
}

fn fail(key: &str, i: &Interaction, o: &Opts, what: String) -> Failure {
    let key = if std::env::var("MC_ALL").is_ok() { format!("{}:{}", key, ["coreg", "sync[", "<sync>", "loop", "alt"].iter().filter(|x| show(i).contains(*x)).cloned().collect::<Vec<_>>().join("+")) } else { key.to_string() };
    Failure { key, detail: format!("interaction: {}\noptions: {:?}\n{}", show(i), o, what) }
}

fn visit(r: &Run, t: &mut Tally) {
    t.states += r.log.nodes.len() as u64;
    t.transitions += r.log.edges.len() as u64;
    t.validated += 1;
}

/// E01: what is explored is the language, for every prefix and every accepted word
fn language(i: &Interaction, lfs: usize, mss: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let looped = has_loop(i);
    let k = if looped { (acts(i) + 1).max(3).min(4).max(acts(i).min(5)) } else { acts(i).min(7) };
    let mut o = opts();
    if looped {
        o.depth = Some(k as u32);
    }
    let r = run(i, lfs, mss, &o, None);
    visit(&r, t);
    if r.count as usize != r.log.nodes.len() {
        return Err(fail("node-count", i, &o, format!("{} nodes announced, {} nodes explored", r.count, r.log.nodes.len())));
    }
    let p = paths(&r, k, lx);
    let got = accepted(&r, &p, k);
    let want = lx.lang(i, k);
    if got != want {
        return Err(fail("accepted", i, &o, lx.diff("exploration", &got, "language", &want)));
    }
    if !has_sync_op(i) && (looped || acts(i) <= 7) {
        // no dead end: the partial executions are the prefixes of accepted words
        let (kk, want) = if looped {
            // n executed actions open at most n iterations, each completed by less than acts(i) more
            let a = acts(i).max(1);
            let kk = (7 / a).max(1) - 1;
            let kk = kk.min(k);
            (kk, prefixes(&lx.lang(i, (kk + 1) * a)))
        } else {
            (k, prefixes(&want))
        };
        let got: Lang = p.keys().cloned().filter(|w| wlen(*w) <= kk).collect();
        let mut got = got;
        got.sort_unstable();
        let want = cut(&want, kk);
        if got != want {
            return Err(fail("prefixes", i, &o, lx.diff("exploration", &got, "prefixes of the language", &want)));
        }
    }
    // memoization on: same words
    let mut om = o.clone();
    om.memo = true;
    // breadth-first: a node is memoized at its smallest depth, so that the depth bound removes nothing else
    let rm = run(i, lfs, mss, &om, None);
    visit(&rm, t);
    let pm = paths(&rm, k, lx);
    let got = accepted(&rm, &pm, k);
    if got != want {
        return Err(fail("accepted-memo", i, &om, lx.diff("memoized exploration", &got, "language", &want)));
    }
    let (a, b): (Vec<Word>, Vec<Word>) = (p.keys().cloned().collect(), pm.keys().cloned().collect());
    if a != b {
        return Err(fail("prefixes-memo", i, &om, lx.diff("exploration", &a, "memoized exploration", &b)));
    }
    Ok(())
}

fn has_alt(i: &Interaction) -> bool {
    show(i).contains("alt(")
}

/// E02: each filter removes exactly what it says, alone and combined
fn filters(i: &Interaction, lfs: usize, mss: usize, lx: &mut Lx, t: &mut Tally, th: bool) -> Result<(), Failure> {
    let looped = has_loop(i);
    let k = if looped { if th { 5 } else { 4 } } else { acts(i).min(7) };
    let mut o = opts();
    o.depth = Some(k as u32);
    let full = run(i, lfs, mss, &o, None);
    visit(&full, t);
    let pf = paths(&full, k, lx);
    let names = |p: &BTreeMap<Word, BTreeSet<u32>>| -> Lang { let mut v: Lang = p.keys().cloned().collect(); v.sort_unstable(); v };
    // depth
    for d in 0..k {
        let mut o = opts();
        o.depth = Some(d as u32);
        let r = run(i, lfs, mss, &o, None);
        visit(&r, t);
        let (got, want) = (names(&paths(&r, k, lx)), cut(&names(&pf), d));
        if got != want {
            return Err(fail("depth-filter", i, &o, lx.diff("exploration", &got, "bounded words", &want)));
        }
        let deeper = names(&pf).len() != want.len();
        if (r.log.filtered > 0) != deeper {
            return Err(fail("depth-filter-report", i, &o, format!("{} filtered steps reported, longer words exist: {}", r.log.filtered, deeper)));
        }
    }
    // loops
    for n in 0..=3usize {
        let mut o = opts();
        o.lp = Some(n as u32);
        o.depth = Some(k as u32);
        let r = run(i, lfs, mss, &o, None);
        visit(&r, t);
        let c = costed(lx, i, k, n);
        let mut want: Lang = vec![];
        for x in &c {
            want = Lx::l_union(&want, x);
        }
        let p = paths(&r, k, lx);
        let got = accepted(&r, &p, k);
        // choices made later and synchronized steps count the largest of several loop depths
        let bad = match (has_alt(i), has_sync_op(i)) {
            (false, false) => got != want,
            (true, false) => !is_subset(&got, &want),
            (false, true) => !is_subset(&want, &got),
            (true, true) => false,
        };
        if bad {
            return Err(fail("loop-filter", i, &o, lx.diff("exploration", &got, "words with few loop instantiations", &want)));
        }
        if !looped && got != lx.lang(i, k) {
            return Err(fail("loop-filter-noloop", i, &o, "a loop filter changed the exploration of an interaction without loop".into()));
        }
        // memoized: no fewer words
        let mut om = o.clone();
        om.depth = None;
        om.memo = true;
        let rm = run(i, lfs, mss, &om, None);
        visit(&rm, t);
        let pm = paths(&rm, k, lx);
        let gm = accepted(&rm, &pm, k);
        if !is_subset(&got, &gm) {
            return Err(fail("loop-filter-memo", i, &om, lx.diff("plain", &got, "memoized", &gm)));
        }
        if !is_subset(&gm, &lx.lang(i, k)) {
            return Err(fail("loop-filter-memo-sound", i, &om, "the memoized exploration leaves the language".into()));
        }
    }
    // number of nodes
    let total = full.log.nodes.len() as u32;
    for n in 0..=(total + 1).min(if th { 16 } else { 9 }) {
        for st in STS {
            let mut o = opts();
            o.st = st;
            o.nodes = Some(n);
            o.depth = Some(k as u32);
            let r = run(i, lfs, mss, &o, None);
            visit(&r, t);
            let want = total.min(n.max(1));
            if r.log.nodes.len() as u32 != want || r.count != want {
                return Err(fail("node-filter", i, &o, format!("{} nodes explored ({} announced), expected {} out of {}", r.log.nodes.len(), r.count, want, total)));
            }
            let got = names(&paths(&r, k, lx));
            if !is_subset(&got, &names(&pf)) {
                return Err(fail("node-filter-sound", i, &o, "a truncated exploration reaches new words".into()));
            }
        }
    }
    Ok(())
}

/// E03: search order options change nothing to what is explored
fn orders(i: &Interaction, lfs: usize, mss: usize, lx: &mut Lx, t: &mut Tally, th: bool) -> Result<(), Failure> {
    let looped = has_loop(i);
    let k = if looped { 4 } else { acts(i).min(7) };
    let mut base = opts();
    base.depth = Some(k as u32);
    let r0 = run(i, lfs, mss, &base, None);
    visit(&r0, t);
    let p0 = paths(&r0, k, lx);
    let (w0, a0) = (p0.keys().cloned().collect::<Vec<_>>(), accepted(&r0, &p0, k));
    // the same with at most two loop instantiations
    let l2 = if looped {
        let mut o = base.clone();
        o.lp = Some(2);
        let r = run(i, lfs, mss, &o, None);
        let p = paths(&r, k, lx);
        (p.keys().cloned().collect::<Vec<_>>(), accepted(&r, &p, k))
    } else {
        (vec![], vec![])
    };
    let prios: Vec<(i32, i32, i32, i32)> = vec![(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (-1, 0, 0, 0), (0, 0, 1, 0), (0, 0, -2, 1), (0, 0, 0, 1), (2, -1, 0, -3)];
    let same = |o: &Opts, r: &Run, lx: &mut Lx| -> Result<(), Failure> {
        let p = paths(r, k, lx);
        let (w, a) = (p.keys().cloned().collect::<Vec<_>>(), accepted(r, &p, k));
        if w != w0 {
            return Err(fail("order-words", i, o, lx.diff("reference", &w0, "with these options", &w)));
        }
        if a != a0 {
            return Err(fail("order-accepted", i, o, lx.diff("reference", &a0, "with these options", &a)));
        }
        if r.verdict != r0.verdict {
            return Err(fail("order-verdict", i, o, format!("verdict {} instead of {}", r.verdict, r0.verdict)));
        }
        if !o.memo && r.log.nodes.len() != r0.log.nodes.len() {
            return Err(fail("order-nodes", i, o, format!("{} nodes instead of {}", r.log.nodes.len(), r0.log.nodes.len())));
        }
        if !r.log.ended {
            return Err(fail("order-end", i, o, "the process never signalled its end".into()));
        }
        Ok(())
    };
    for st in STS {
        for p in &prios {
            for memo in [false, true] {
                let mut o = base.clone();
                o.st = st;
                o.prio = *p;
                o.memo = memo;
                if memo && looped && st != St::Bfs {
                    // the depth bound and memoization do not combine out of breadth-first order:
                    // bound the loops instead
                    o.depth = None;
                    o.lp = Some(2);
                    let r = run(i, lfs, mss, &o, None);
                    visit(&r, t);
                    let p = paths(&r, k, lx);
                    let (w, a) = (p.keys().cloned().collect::<Vec<_>>(), accepted(&r, &p, k));
                    if !is_subset(&w, &w0) || !is_subset(&a, &a0) || !is_subset(&l2.0, &w) || !is_subset(&l2.1, &a) {
                        return Err(fail("order-memo", i, &o, lx.diff("plain exploration with the same loop bound", &l2.0, "memoized", &w)));
                    }
                    continue;
                }
                let r = run(i, lfs, mss, &o, None);
                visit(&r, t);
                same(&o, &r, lx)?;
                if !memo {
                    order_rules(i, &o, &r)?;
                }
            }
        }
    }
    // random order: every outcome of every shuffle, on terms whose decision tree is small
    let mut kr = base.clone();
    kr.depth = Some((k as u32).min(2));
    let rr = run(i, lfs, mss, &kr, None);
    let pr = paths(&rr, k, lx);
    let (wr, ar) = (pr.keys().cloned().collect::<Vec<_>>(), accepted(&rr, &pr, k));
    let mut fan: BTreeMap<u32, u64> = BTreeMap::new();
    for e in &rr.log.edges {
        *fan.entry(e.0).or_insert(0) += 1;
    }
    let mut size = 1u64;
    for v in fan.values() {
        for f in 1..=*v {
            size = size.saturating_mul(f);
        }
    }
    // nodes on the depth bound shuffle their filtered children too
    if size <= if th { 256 } else { 24 } {
        for st in STS {
            let mut o = kr.clone();
            o.st = st;
            o.randomize = true;
            let mut res = Ok(());
            let mut leafs = 0u64;
            let (stats, _) = rngctl::all_choices(64, 0, 200_000, |_| -> Result<(), ()> {
                let r = run(i, lfs, mss, &o, None);
                leafs += 1;
                if leafs > 400 {
                    return Err(());
                }
                let p = paths(&r, k, lx);
                let (w, a) = (p.keys().cloned().collect::<Vec<_>>(), accepted(&r, &p, k));
                if w != wr || a != ar || r.verdict != rr.verdict && r.log.filtered == 0 {
                    res = Err(fail("random-order", i, &o, lx.diff("reference", &wr, "random order", &w)));
                    return Err(());
                }
                Ok(())
            });
            t.extra.entry("random_orders".into()).and_modify(|x| *x += stats.runs).or_insert(stats.runs);
            res?;
        }
    }
    Ok(())
}

/// breadth-first visits nodes by depth, depth-first finishes a branch before its siblings,
/// siblings come by decreasing priority
fn order_rules(i: &Interaction, o: &Opts, r: &Run) -> Result<(), Failure> {
    let mut last: HashMap<u32, i32> = HashMap::new();
    let mut depth = 0;
    let mut parent: HashMap<u32, u32> = HashMap::new();
    let mut prev = 1u32;
    for (a, b, _, p, d) in &r.log.edges {
        if let Some(q) = last.get(a) {
            if p > q {
                return Err(fail("priority-order", i, o, format!("node {} takes a step of priority {} after one of priority {}", a, p, q)));
            }
        }
        last.insert(*a, *p);
        match o.st {
            St::Bfs => {
                if *d < depth {
                    return Err(fail("bfs-order", i, o, format!("a node of depth {} after one of depth {}", d, depth)));
                }
                depth = *d;
            }
            St::Dfs => {
                // the parent of a new node is on the path to the previously created node
                let mut x = prev;
                while x != *a {
                    match parent.get(&x) {
                        Some(y) => x = *y,
                        None => return Err(fail("dfs-order", i, o, format!("node {} comes after {} which is not below {}", b, prev, a))),
                    }
                }
            }
            St::Hcs => {}
        }
        parent.insert(*b, *a);
        prev = *b;
    }
    Ok(())
}

/// E04: local verdicts and the deadlock verdict
fn deadlocks(i: &Interaction, lfs: usize, mss: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let looped = has_loop(i);
    let k = if looped { 3 } else { acts(i).min(7) };
    for st in [St::Bfs, St::Dfs] {
        let mut o = opts();
        o.st = st;
        if looped {
            o.depth = Some(k as u32);
        }
        let r = run(i, lfs, mss, &o, None);
        visit(&r, t);
        let mut found_dead = false;
        let with_child: HashSet<u32> = r.log.edges.iter().map(|e| e.0).collect();
        for (id, n) in &r.log.nodes {
            let empty = lx.lang(n, 0) == vec![0];
            if empty != r.log.accepting.contains(id) {
                return Err(fail("accepting", i, &o, format!("node {}: empty word accepted {}, announced accepting {}", show(n), empty, r.log.accepting.contains(id))));
            }
            let bound = if looped { 5 } else { acts(n).min(7) };
            if lx.lang(n, bound).is_empty() && (!looped || !with_child.contains(id)) {
                found_dead = true;
                if with_child.contains(id) {
                    continue; // its dead ends are further down
                }
                if !r.log.dead.contains(id) && !looped {
                    return Err(fail("deadlock-missed", i, &o, format!("node {} has no behaviour and is not announced as a deadlock", show(n))));
                }
            } else if r.log.dead.contains(id) {
                return Err(fail("deadlock-wrong", i, &o, format!("node {} has behaviours and is announced as a deadlock", show(n))));
            }
        }
        let verdict = r.verdict == ExplorationGlobalVerdict::HasDeadLocks;
        if verdict == r.log.dead.is_empty() {
            return Err(fail("verdict-local", i, &o, format!("verdict {} with {} deadlocked nodes", r.verdict, r.log.dead.len())));
        }
        if !looped && verdict != found_dead {
            return Err(fail("verdict", i, &o, format!("verdict {} while a reachable interaction without behaviour exists: {}", r.verdict, found_dead)));
        }
        if !has_sync_op(i) && verdict {
            return Err(fail("verdict-nosync", i, &o, "deadlock in an interaction without synchronisation".into()));
        }
    }
    Ok(())
}

fn partitions(lfs: usize) -> Vec<(CoLocalizations, &'static str)> {
    let mut v = vec![(CoLocalizations::get_trivial_partition(lfs), "trivial"), (CoLocalizations::get_discrete_partition(lfs), "discrete")];
    if lfs == 3 {
        v.push((CoLocalizations::new(vec![[0usize, 2].into_iter().collect(), [1usize].into_iter().collect()]), "{a,c},{b}"));
    }
    v
}

/// splits a word into one sequence of multi-actions per co-localization
fn split(lx: &Lx, w: Word, c: &CoLocalizations) -> Vec<Vec<Letter>> {
    c.locs_lf_ids.iter().map(|s| {
        lx.letters_of(w).into_iter().map(|l| l.into_iter().filter(|a| s.contains(&a.lf_id)).collect::<Letter>()).filter(|l| !l.is_empty()).collect()
    }).collect()
}

/// E05: the multi-traces written in files are the explored ones
fn tracegen(i: &Interaction, lfs: usize, mss: usize, sc: &Scratch, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let looped = has_loop(i);
    let k = if looped { 3 } else { acts(i).min(4) };
    let g = gen_ctx(lfs, mss);
    let mut o = opts();
    o.depth = Some(k as u32);
    let r0 = run(i, lfs, mss, &o, None);
    visit(&r0, t);
    let p0 = paths(&r0, k, lx);
    for (c, cname) in partitions(lfs) {
        for mode in 0..4 {
            for dedup in [false, true] {
                if dedup && mode != 0 {
                    continue;
                }
                let m = match mode {
                    0 => TracegenProcessLoggerGeneration::accepted,
                    1 => TracegenProcessLoggerGeneration::atExactDepth(1),
                    2 => TracegenProcessLoggerGeneration::atExactDepth(2),
                    _ => TracegenProcessLoggerGeneration::atDepthModulo(2),
                };
                let mut want: BTreeSet<Vec<Vec<Letter>>> = BTreeSet::new();
                let acc = accepted(&r0, &p0, k);
                for w in p0.keys() {
                    let n = wlen(*w);
                    let sel = match mode {
                        0 => acc.binary_search(w).is_ok(),
                        1 => n == 1,
                        2 => n == 2,
                        _ => n % 2 == 0,
                    };
                    if n > 0 && sel {
                        want.insert(split(lx, *w, &c));
                    }
                }
                let dir = sc.file("tg");
                let _ = std::fs::remove_dir_all(&dir);
                let logger: GenericStepsTraceLogger<ExplorationConfig, _> =
                    GenericStepsTraceLogger::new(Box::new(MultiTraceProcessPrinter::new(c.clone(), m)), dedup, "t".into(), "htf".into(), dir.clone());
                let r = run(i, lfs, mss, &o, Some(Box::new(logger)));
                visit(&r, t);
                let mut got: BTreeSet<Vec<Vec<Letter>>> = BTreeSet::new();
                let mut files = 0;
                for e in std::fs::read_dir(&dir).map_err(|e| fail("tracegen-dir", i, &o, e.to_string()))? {
                    let path = e.unwrap().path();
                    files += 1;
                    let text = std::fs::read_to_string(&path).unwrap_or_default();
                    match parse_htf_file(&g, path.to_str().unwrap()) {
                        Ok((cc, mu)) => {
                            if cc.locs_lf_ids != c.locs_lf_ids {
                                return Err(fail("tracegen-coloc", i, &o, format!("partition {}: the file\n{}\ndeclares {:?}", cname, text, cc.locs_lf_ids)));
                            }
                            got.insert(mu);
                        }
                        Err(e) => return Err(fail("tracegen-parse", i, &o, format!("partition {}: the file\n{}\ncannot be read back: {}", cname, text, e))),
                    }
                }
                if got != want && !(dedup && got.is_subset(&want)) {
                    let a: Vec<_> = want.difference(&got).collect();
                    let b: Vec<_> = got.difference(&want).collect();
                    return Err(fail("tracegen", i, &o, format!("partition {}, mode {}, no_duplicate {}: missing {:?}, unexpected {:?}", cname, mode, dedup, a, b)));
                }
                if dedup && files != got.len() {
                    return Err(fail("tracegen-dup", i, &o, format!("partition {}: {} files for {} multi-traces", cname, files, got.len())));
                }
                t.bump("generated_sets");
            }
        }
    }
    Ok(())
}

/// what one logger is asked to write
struct Asked {
    folder: &'static str,
    prefix: &'static str,
    /// 0: accepted, 1: at depth 1, 2: at depth 2, 3: every two steps
    mode: usize,
    partition: Vec<Vec<usize>>,
    dedup: bool,
}

/// configuration file, whether the search is complete, loggers
fn commands(lfs: usize, k: usize) -> Vec<(Option<String>, bool, Vec<Asked>)> {
    let all: Vec<Vec<usize>> = vec![(0..lfs).collect()];
    let each: Vec<Vec<usize>> = (0..lfs).map(|x| vec![x]).collect();
    let n = Names::std(lfs, 1);
    let mut some = vec![vec![lfs - 1]];
    some.extend((0..lfs - 1).map(|x| vec![x]));
    let last = n.lf[lfs - 1].clone();
    let ask = |folder, prefix, mode, partition: &Vec<Vec<usize>>, dedup| Asked { folder, prefix, mode, partition: partition.clone(), dedup };
    let mut v = vec![
        (None, false, vec![]),
        (Some(format!("@explore_option{{ loggers = [ tracegen ] ; filters = [ max_depth = {} ] ; memoize = false }}", k)), true, vec![ask("tracegen_l1", "trace", 0, &all, false)]),
        (Some(format!("@explore_option{{ memoize = false ; strategy = HCS ; filters = [ max_depth = {} ] ; loggers = [ tracegen [ generation = exact depth 2 , partition = discrete , folder = out , prefix = p ] ] }} @analyze_option{{ goal = none }}", k)), true, vec![ask("out", "p", 2, &each, false)]),
        (Some(format!("@explore_option{{ strategy = DFS ; memoize = false ; priorities = [ reception = 1 , loop = -1 ] ; filters = [ max_depth = {} ] ; loggers = [ tracegen [ generation = modulo depth 2 , partition = {{ ({}) }} ] , tracegen [ name_prefix = q , generation = exact depth 1 , partition = trivial ] , tracegen [ partition = discrete , folder = f ] ] }}", k, last)), true,
         vec![ask("tracegen_l1", "trace", 3, &some, false), ask("tracegen_l2", "q", 1, &all, false), ask("f", "trace", 0, &each, false)]),
        (Some(format!("@explore_option{{ loggers = [ tracegen [ no_duplicates = true ] ] ; filters = [ max_depth = {} ] ; memoize = true }}", k)), false, vec![ask("tracegen_l1", "trace", 0, &all, true)]),
        (Some("@explore_option{ loggers = [ tracegen [ generation = accepted , partition = discrete ] ] ; filters = [ max_loop_depth = 1 , max_node_number = 4 ] ; memoize = false }".to_string()), false, vec![ask("tracegen_l1", "trace", 0, &each, false)]),
    ];
    if lfs == 3 {
        let two = vec![vec![0, 2], vec![1]];
        v.push((Some(format!("@explore_option{{ loggers = [ tracegen [ partition = {{ ({},{}),({}) }} , parent = g ] ] ; filters = [ max_depth = {} ] ; memoize = false }}", n.lf[2], n.lf[0], n.lf[1], k)), true, vec![ask("g", "trace", 0, &two, false)]));
    }
    v
}

/// C02: the command, from its files to those it writes
fn command(i: &Interaction, lfs: usize, mss: usize, w: &Tool, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let looped = has_loop(i);
    let k = if looped { 3 } else { acts(i).max(1) };
    let g = gen_ctx(lfs, mss);
    let names = Names::std(lfs, mss);
    let mut o = opts();
    o.depth = Some(k as u32);
    // the traces of the oracle
    let full = lx.lang(i, if looped { 7 } else { k });
    let pre = prefixes(&full);
    for (conf, complete, asked) in commands(lfs, k) {
        w.dir.clear();
        std::fs::write(w.dir.file("s.hsf"), names.hsf()).unwrap();
        std::fs::write(w.dir.file("i.hif"), names.hif(i)).unwrap();
        let mut args = vec!["explore", "s.hsf", "i.hif"];
        if let Some(c) = &conf {
            std::fs::write(w.dir.file("c.hcf"), c).unwrap();
            args.push("c.hcf");
        }
        let bad = |key: &str, what: String| fail(key, i, &o, format!("configuration {:?}\n{}", conf, what));
        t.validated += 1;
        t.bump("runs_of_the_tool");
        let out = w.cli.run(&args);
        if out.panicked() {
            return Err(bad("panic", out.err));
        }
        let nodes = out.value("node count").and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        if nodes == 0 {
            return Err(bad("nodes", out.text));
        }
        t.states += nodes;
        t.transitions += nodes - 1;
        let mut expected: BTreeSet<String> = ["s.hsf", "i.hif"].iter().map(|x| x.to_string()).collect();
        expected.extend(conf.iter().map(|_| "c.hcf".to_string()));
        expected.extend(asked.iter().map(|x| x.folder.to_string()));
        let there: BTreeSet<String> = std::fs::read_dir(&w.dir.dir).unwrap().map(|e| e.unwrap().file_name().to_str().unwrap().to_string()).collect();
        if there != expected {
            return Err(bad("files", format!("{:?} instead of {:?}", there, expected)));
        }
        for a in &asked {
            let parts: Vec<BTreeSet<usize>> = a.partition.iter().map(|x| x.iter().copied().collect()).collect();
            let c = CoLocalizations::new(parts.clone());
            let mut want: BTreeSet<Vec<Vec<Letter>>> = BTreeSet::new();
            for w in &pre {
                let n = wlen(*w);
                let sel = match a.mode {
                    0 => full.binary_search(w).is_ok(),
                    1 => n == 1,
                    2 => n == 2,
                    _ => n % 2 == 0,
                };
                if n > 0 && n <= k && sel {
                    want.insert(split(lx, *w, &c));
                }
            }
            let mut got: BTreeSet<Vec<Vec<Letter>>> = BTreeSet::new();
            let mut found = BTreeSet::new();
            for e in std::fs::read_dir(w.dir.file(a.folder)).unwrap() {
                let path = e.unwrap().path();
                found.insert(path.file_name().unwrap().to_str().unwrap().to_string());
                match parse_htf_file(&g, path.to_str().unwrap()) {
                    Ok((cc, mu)) => {
                        if cc.locs_lf_ids != parts {
                            return Err(bad("partition", format!("{}: {:?} instead of {:?}", a.folder, cc.locs_lf_ids, parts)));
                        }
                        if !got.insert(mu.clone()) && a.dedup {
                            return Err(bad("duplicate", format!("{}: {:?} twice", a.folder, mu)));
                        }
                    }
                    Err(e) => return Err(bad("unreadable", format!("{:?}: {}", path, e))),
                }
            }
            let numbered: BTreeSet<String> = (1..=found.len()).map(|n| format!("{}{}.htf", a.prefix, n)).collect();
            if found != numbered {
                return Err(bad("names", format!("{}: {:?}", a.folder, found)));
            }
            if if complete { got != want } else { !got.is_subset(&want) && !(looped && a.mode == 0) } {
                let x: Vec<_> = want.difference(&got).collect();
                let y: Vec<_> = got.difference(&want).collect();
                return Err(bad("traces", format!("{}: missing {:?}, unexpected {:?}", a.folder, x, y)));
            }
        }
    }
    Ok(())
}

struct Tool {
    dir: Scratch,
    cli: Cli,
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let u = universe(&id, th);
    r.bounds = u.describe();
    let n = u.size();
    let only: Option<u64> = std::env::var("MC_ITEM").ok().and_then(|s| s.parse().ok());
    r.sweep(n, || {
        let dir = Scratch::new();
        (Lx::new(), Scratch::new(), Tool { cli: Cli::new(&dir.dir), dir })
    }, |idx, w, t| {
        if let Some(o) = only {
            if idx != o {
                return Ok(());
            }
        }
        let (part, term) = u.decode(idx);
        let term = match term {
            Some(x) => x,
            None => return Ok(()),
        };
        t.bump("terms");
        if idx % 997 == 5 {
            t.sample(|| show(&term));
        }
        let (lfs, mss) = (u.parts[part].lfs, u.parts[part].mss);
        if w.0.letters.len() > 200 {
            w.0 = Lx::new();
        }
        match id.as_str() {
            "E01" => language(&term, lfs, mss, &mut w.0, t),
            "E02" => filters(&term, lfs, mss, &mut w.0, t, th),
            "E03" => orders(&term, lfs, mss, &mut w.0, t, th),
            "E04" if !has_loop(&term) && acts(&term) > 7 => Ok(()), // longer than the words of the oracle
            "E04" => deadlocks(&term, lfs, mss, &mut w.0, t),
            "C02" if acts(&term) > 5 || (has_loop(&term) && acts(&term) > 3) => Ok(()), // longer than the words of the oracle
            "C02" => {
                command(&term, lfs, mss, &w.2, &mut w.0, t)
            }
            "E05" => tracegen(&term, lfs, mss, &w.1, &mut w.0, t),
            _ => panic!("unknown property"),
        }
    });
    std::process::exit(r.finish());
}
