//! Checks of the multi-trace analysis: A01.. (see /verif/DESIGN.md).
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;

use hibou::core::colocalizations::CoLocalizations;
use hibou::core::execution::semantics::execute::execute_interaction;
use hibou::core::execution::semantics::frontier::global_frontier;
use hibou::core::execution::trace::multitrace::{multi_trace_length, MultiTrace};
use hibou::core::language::syntax::action::EmissionTargetRef;
use hibou::core::language::syntax::interaction::Interaction;
use hibou::io::input::htf::interface::parse_htf_file;
use hibou::process::ana::conf::AnalysisConfig;
use hibou::process::ana::context::AnalysisContext;
use hibou::process::ana::filter::elim::AnalysisFilterEliminationKind;
use hibou::process::ana::filter::filter::{AnalysisFilter, AnalysisFilterCriterion};
use hibou::process::ana::node::flags::MultiTraceAnalysisFlags;
use hibou::process::ana::node::node::AnalysisNodeKind;
use hibou::process::ana::param::anakind::{AnalysisKind, SimulationActionCriterion, SimulationConfiguration, SimulationLoopCriterion};
use hibou::process::ana::param::param::{AnalysisParameterization, LocalAnalysisLifelineSelectionPolicy, LocalAnalysisParameterization};
use hibou::process::ana::priorities::AnalysisPriorities;
use hibou::process::ana::step::AnalysisStepKind;
use hibou::process::ana::verdict::global::AnalysisGlobalVerdict as V;
use hibou::process::ana::verdict::inconc::InconcReason;

use mc::cli::Cli;
use mc::hif::Names;
use mc::lang::*;
use mc::report::*;
use mc::scratch::Scratch;
use mc::universe::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Bfs,
    Dfs,
    Hcs,
}

#[derive(Clone, Debug)]
struct Opts {
    kind: AnalysisKind,
    st: St,
    prio: (i32, i32, i32, i32, i32, i32),
    randomize: bool,
    memo: bool,
    /// all lifelines (or only the dirty ones), depth, modulo
    local: Option<(bool, Option<u32>, u32)>,
    por: bool,
    /// true: Pass, false: WeakPass
    goal: Option<bool>,
    depth: Option<u32>,
    lp: Option<u32>,
    nodes: Option<u32>,
}

fn opts(kind: AnalysisKind) -> Opts {
    Opts { kind, st: St::Bfs, prio: (0, 0, 0, 0, 1, -1), randomize: false, memo: false, local: None, por: false, goal: None, depth: None, lp: None, nodes: None }
}

fn analyze(i: &Interaction, lfs: usize, mss: usize, cl: &CoLocalizations, mu: &MultiTrace, o: &Opts) -> (u32, V) {
    let st = match o.st {
        St::Bfs => QueueSearchStrategy::BFS,
        St::Dfs => QueueSearchStrategy::DFS,
        St::Hcs => QueueSearchStrategy::HCS,
    };
    let len = multi_trace_length(mu);
    let ctx = AnalysisContext::new(gen_ctx(lfs, mss), cl.clone(), mu.clone(), len);
    let p = &o.prio;
    let delegate: GenericProcessDelegate<AnalysisStepKind, AnalysisNodeKind, AnalysisPriorities> =
        GenericProcessDelegate::new(st, GenericProcessPriorities::new(AnalysisPriorities::new(p.0, p.1, p.2, p.3, p.4, p.5), o.randomize));
    let local = o.local.map(|(all, d, n)| {
        LocalAnalysisParameterization::new(if all { LocalAnalysisLifelineSelectionPolicy::SelectAll } else { LocalAnalysisLifelineSelectionPolicy::OnlyOnImpactedByLastStep }, d, n)
    });
    let flags = match o.kind.get_sim_config() {
        None => MultiTraceAnalysisFlags::new_init(cl.num_colocs(), 0, 0),
        Some(c) => MultiTraceAnalysisFlags::new_init(cl.num_colocs(), c.get_reset_rem_loop(len, i), c.get_reset_rem_act(len, i)),
    };
    let mut filters: Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>> = vec![];
    if let Some(d) = o.depth {
        filters.push(Box::new(AnalysisFilter::MaxProcessDepth(d)));
    }
    if let Some(d) = o.lp {
        filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(d)));
    }
    if let Some(d) = o.nodes {
        filters.push(Box::new(AnalysisFilter::MaxNodeNumber(d)));
    }
    let param = AnalysisParameterization::new(o.kind.clone(), local, o.por);
    let mut m: GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(ctx, param, delegate, filters, vec![], o.goal.map(|g| if g { V::Pass } else { V::WeakPass }), o.memo);
    m.start_process(AnalysisNodeKind::new(i.clone(), flags, 0))
}

type Mu = Vec<Vec<u8>>;

fn partitions(lfs: usize) -> Vec<Vec<Vec<usize>>> {
    match lfs {
        1 => vec![vec![vec![0]]],
        2 => vec![vec![vec![0, 1]], vec![vec![0], vec![1]], vec![vec![1], vec![0]]],
        _ => vec![vec![vec![0, 1, 2]], vec![vec![0], vec![1], vec![2]], vec![vec![0, 2], vec![1]], vec![vec![2], vec![0, 1]], vec![vec![2], vec![1], vec![0]]],
    }
}

fn coloc(p: &[Vec<usize>]) -> CoLocalizations {
    CoLocalizations::new(p.iter().map(|s| s.iter().cloned().collect()).collect())
}

/// the components of a word under a partition, as strings of letter ids
fn split(w: Word, p: &[Vec<usize>], lx: &mut Lx) -> Mu {
    let mut out: Mu = vec![vec![]; p.len()];
    for l in lx.letters_of(w) {
        for (c, s) in p.iter().enumerate() {
            let r: Letter = l.iter().filter(|a| s.contains(&a.lf_id)).cloned().collect();
            if !r.is_empty() {
                let id = lx.id(&r);
                out[c].push(id);
            }
        }
    }
    out
}

fn total(m: &Mu) -> usize {
    m.iter().map(|x| x.len()).sum()
}

/// what the specified traces say of the multi-traces of at most `n` actions
#[derive(Default)]
struct Oracle {
    accepted: HashSet<Mu>,
    /// projections of prefixes of specified traces, with their executions
    prefix: HashSet<Mu>,
    /// component-wise prefixes / factors, with the least number of unobserved actions needed
    multi: BTreeMap<Mu, usize>,
    slice: BTreeMap<Mu, usize>,
    /// all accepted and prefix entries are exact up to this total length
    alphabets: Vec<BTreeSet<u8>>,
}

fn note(m: &mut BTreeMap<Mu, usize>, k: Mu, v: usize) {
    match m.get_mut(&k) {
        Some(x) => {
            if v < *x {
                *x = v
            }
        }
        None => {
            m.insert(k, v);
        }
    }
}

/// all ways of cutting each component: prefixes (or factors) of `full`, at most n actions in total
fn cuts(full: &Mu, n: usize, factors: bool, out: &mut Vec<Mu>) {
    out.push(vec![]);
    let mut acc: Vec<(Mu, usize)> = vec![(vec![], 0)];
    for c in full {
        let mut next = vec![];
        for (m, used) in &acc {
            let starts = if factors { c.len() } else { 0 };
            for s in 0..=starts {
                for e in s..=c.len() {
                    if s > 0 && s == e {
                        continue;
                    }
                    if used + e - s <= n {
                        let mut m2 = m.clone();
                        m2.push(c[s..e].to_vec());
                        next.push((m2, used + e - s));
                    }
                }
            }
        }
        acc = next;
    }
    out.clear();
    out.extend(acc.into_iter().map(|x| x.0));
}

fn oracle(l: &Lang, p: &[Vec<usize>], n: usize, sim: bool, lx: &mut Lx) -> Oracle {
    let mut o = Oracle { alphabets: vec![BTreeSet::new(); p.len()], ..Default::default() };
    let mut seen: HashSet<Word> = HashSet::new();
    let mut buf = vec![];
    for &w in l {
        let full = split(w, p, lx);
        for (c, x) in full.iter().enumerate() {
            o.alphabets[c].extend(x.iter());
        }
        if total(&full) <= n {
            o.accepted.insert(full);
        }
        for k in 0..=wlen(w) {
            let q = if k >= 8 { w } else { w & ((1u64 << (8 * k)) - 1) };
            if !seen.insert(q) {
                continue;
            }
            let v = split(q, p, lx);
            let len = wlen(q);
            let t = total(&v);
            if t <= n {
                o.prefix.insert(v.clone());
            }
            cuts(&v, n, false, &mut buf);
            for m in buf.drain(..) {
                let miss = t - total(&m);
                let _ = len;
                note(&mut o.multi, m, miss);
            }
            if sim {
                cuts(&v, n, true, &mut buf);
                for m in buf.drain(..) {
                    let miss = t - total(&m);
                    note(&mut o.slice, m, miss);
                }
            }
        }
    }
    o
}

/// actions outside loops, actions inside loops
fn weight(i: &Interaction, inside: bool) -> (usize, usize) {
    match i {
        Interaction::Loop(_, a) => weight(a, true),
        Interaction::Alt(a, b) => {
            let (x, y) = (weight(a, inside), weight(b, inside));
            (x.0.max(y.0), x.1.max(y.1))
        }
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => {
            let (x, y) = (weight(a, inside), weight(b, inside));
            (x.0 + y.0, x.1 + y.1)
        }
        _ => {
            let n = acts(i);
            if inside { (0, n) } else { (n, 0) }
        }
    }
}

/// the largest total length for which words of the oracle (at most 7 actions) decide prefixes
fn decided(i: &Interaction) -> usize {
    let (out, inl) = weight(i, false);
    if inl == 0 {
        return if out <= 7 { 7 } else { 0 };
    }
    if out > 7 { 0 } else { ((7 - out) / inl).saturating_sub(0) }
}

/// all multi-traces of at most n actions over the alphabets
fn multi_traces(al: &[BTreeSet<u8>], n: usize) -> Vec<Mu> {
    let mut acc: Vec<(Mu, usize)> = vec![(vec![], 0)];
    for a in al {
        // words over a of each length
        let mut words: Vec<Vec<u8>> = vec![vec![]];
        let mut layer: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..n {
            let mut next = vec![];
            for w in &layer {
                for x in a {
                    let mut v = w.clone();
                    v.push(*x);
                    next.push(v);
                }
            }
            words.extend(next.iter().cloned());
            layer = next;
        }
        let mut next = vec![];
        for (m, used) in &acc {
            for w in &words {
                if used + w.len() <= n {
                    let mut m2 = m.clone();
                    m2.push(w.clone());
                    next.push((m2, used + w.len()));
                }
            }
        }
        acc = next;
    }
    acc.into_iter().map(|x| x.0).collect()
}

fn concrete(m: &Mu, lx: &Lx) -> MultiTrace {
    m.iter().map(|c| c.iter().map(|x| lx.letter(*x).clone()).collect()).collect()
}

fn show_mu(m: &Mu, p: &[Vec<usize>], lx: &Lx) -> String {
    let mut v = vec![];
    for (c, x) in m.iter().enumerate() {
        let lf: String = p[c].iter().map(|l| (b'a' + *l as u8) as char).collect();
        let w: Word = x.iter().enumerate().fold(0, |w, (n, l)| w | ((*l as u64) << (8 * n)));
        v.push(format!("[{}] {}", lf, lx.show(w)));
    }
    v.join(" ; ")
}

fn fail(key: &str, i: &Interaction, o: &Opts, mu: &str, what: String) -> Failure {
    let key = if std::env::var("MC_ALL").is_ok() {
        let s = show(i);
        format!("{}:{}:{}", key, ["coreg", "sync[", "<sync>", "loop", "alt"].iter().filter(|x| s.contains(*x)).cloned().collect::<Vec<_>>().join("+"), what.split(':').next().unwrap_or(""))
    } else {
        key.to_string()
    };
    Failure { key, detail: format!("interaction: {}\nmulti-trace: {}\noptions: {:?}\n{}", show(i), mu, o, what) }
}

/// what a verdict may be, whatever the options
#[derive(Clone, Copy, Debug)]
struct Truth {
    accepted: bool,
    prefix: bool,
    multi: bool,
    slice: bool,
    discrete: bool,
    single: bool,
    /// facts about prefixes are known (long enough words)
    known: bool,
    /// elimination of lifelines only over-approximates (co-regions over ordered operands)
    over: bool,
}

/// sound: every definite verdict is right; exact: nothing better could have been said
fn judge(kind: &AnalysisKind, v: &V, t: &Truth, exact: bool) -> Result<(), String> {
    let is_inconc = matches!(v, V::Inconc(_));
    match v {
        V::Pass if !t.accepted => return Err("Pass: the multi-trace is not accepted".into()),
        V::WeakPass => {
            let ok = match kind {
                AnalysisKind::Accept => false,
                AnalysisKind::Prefix => t.prefix,
                AnalysisKind::Eliminate => (t.multi || t.over) && (t.discrete || t.prefix),
                AnalysisKind::Simulate(c) => if c.sim_before { t.slice } else { t.multi },
            };
            if !ok && (t.known || matches!(kind, AnalysisKind::Accept)) {
                return Err("WeakPass: the multi-trace is not a possible partial observation".into());
            }
        }
        V::Fail => {
            if t.accepted || (t.known && t.multi && !matches!(kind, AnalysisKind::Accept)) {
                return Err("Fail: the multi-trace is a possible (partial) observation".into());
            }
        }
        V::WeakFail => {
            if !matches!(kind, AnalysisKind::Simulate(_)) {
                return Err("WeakFail: outside of simulation".into());
            }
            if t.accepted {
                return Err("WeakFail: the multi-trace is accepted".into());
            }
        }
        _ => {}
    }
    if !exact {
        return Ok(());
    }
    if t.accepted && *v != V::Pass && !matches!(kind, AnalysisKind::Eliminate) {
        return Err(format!("{}: the multi-trace is accepted", v));
    }
    match kind {
        AnalysisKind::Accept => {
            if !t.accepted && *v != V::Fail {
                return Err(format!("{}: the multi-trace is not accepted", v));
            }
        }
        AnalysisKind::Prefix => {
            if t.known && t.prefix && !t.accepted && *v != V::WeakPass {
                return Err(format!("{}: the multi-trace is the projection of a prefix", v));
            }
            if t.known && t.single && !t.prefix && *v != V::Fail {
                return Err(format!("{}: a fully observed trace is not a prefix", v));
            }
            if *v == V::WeakFail {
                return Err("WeakFail: in prefix analysis".into());
            }
        }
        AnalysisKind::Eliminate => {
            // membership among partial observations, exactly; Pass only says a little more than WeakPass
            if t.known && t.discrete {
                let good = *v == V::Pass || *v == V::WeakPass;
                if good != t.multi && !(good && t.over) {
                    return Err(format!("{}: partial observation is {}", v, t.multi));
                }
            }
            if t.discrete && is_inconc {
                return Err("Inconc: with one lifeline per component".into());
            }
        }
        AnalysisKind::Simulate(_) => {
            if t.known && t.prefix && *v != V::Pass && *v != V::WeakPass {
                return Err(format!("{}: the multi-trace is the projection of a prefix", v));
            }
            if is_inconc || (*v == V::Fail) {
                return Err(format!("{}: in simulation without filters", v));
            }
        }
    }
    Ok(())
}

/// calls f on every multi-trace of the term under every partition
fn each(i: &Interaction, lfs: usize, n: usize, sim: bool, lx: &mut Lx, foreign: bool,
        mut f: impl FnMut(&[Vec<usize>], &CoLocalizations, &Mu, &MultiTrace, &Truth, &Oracle, &Lx) -> Result<(), Failure>) -> Result<(), Failure> {
    let l = lx.lang(i, 7);
    let known = decided(i);
    let over = coreg_on_ordered(i);
    for p in partitions(lfs) {
        let mut o = oracle(&l, &p, n, sim, lx);
        if foreign {
            // an action the interaction never mentions
            let x = lx.single(0, hibou::core::execution::trace::trace::TraceActionKind::Emission, 1);
            o.alphabets[p.iter().position(|s| s.contains(&0)).unwrap()].insert(x);
        }
        let cl = coloc(&p);
        let discrete = p.iter().all(|s| s.len() == 1);
        for m in multi_traces(&o.alphabets, n) {
            let t = Truth {
                accepted: o.accepted.contains(&m),
                prefix: o.prefix.contains(&m),
                multi: o.multi.contains_key(&m),
                slice: o.slice.contains_key(&m),
                discrete,
                single: p.len() == 1,
                known: total(&m) <= known,
                over,
            };
            let mu = concrete(&m, lx);
            f(&p, &cl, &m, &mu, &t, &o, lx)?;
        }
    }
    Ok(())
}

fn term_bound(i: &Interaction, th: bool) -> usize {
    let _ = i;
    if th { 4 } else { 3 }
}

/// A01 A02 A03: verdicts of the three non-simulating analyses
fn verdicts(kind: AnalysisKind, i: &Interaction, lfs: usize, mss: usize, n: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let k = &kind;
    let sync = has_sync_op(i);
    let mut base = vec![opts(kind.clone())];
    let mut d = opts(kind.clone());
    d.st = St::Dfs;
    d.memo = true;
    d.local = Some((false, None, 1));
    if !sync {
        base.push(d);
    }
    each(i, lfs, n, false, lx, mss > 1, |p, cl, m, mu, truth, _, lx| {
        let mut truth = *truth;
        if sync {
            truth.known = false;
        }
        for o in &base {
            let (nodes, v) = analyze(i, lfs, mss, cl, mu, o);
            t.states += nodes as u64;
            t.transitions += nodes as u64 - 1;
            t.validated += 1;
            t.bump(&format!("verdict_{}", match v { V::Inconc(_) => "Inconc".to_string(), _ => v.to_string() }));
            // local analysis turns inconclusive verdicts into failures
            let exact = true;
            if let Err(e) = judge(k, &v, &truth, exact) {
                return Err(fail("verdict", i, o, &show_mu(m, p, lx), e));
            }
        }
        Ok(())
    })
}

fn sim_configs(th: bool) -> Vec<SimulationConfiguration> {
    let mut v = vec![];
    let loops = [SimulationLoopCriterion::MaxNum, SimulationLoopCriterion::MaxDepth, SimulationLoopCriterion::SpecificNum(0), SimulationLoopCriterion::SpecificNum(1), SimulationLoopCriterion::SpecificNum(2), SimulationLoopCriterion::None];
    let actc = [SimulationActionCriterion::MaxNumOutsideLoops, SimulationActionCriterion::SpecificNum(0), SimulationActionCriterion::SpecificNum(1), SimulationActionCriterion::SpecificNum(2), SimulationActionCriterion::None];
    for before in [false, true] {
        for reset in [false, true] {
            for mult in [false, true] {
                for l in &loops {
                    for a in &actc {
                        let _ = th;
                        v.push(SimulationConfiguration::new(before, reset, mult, l.clone(), a.clone()));
                    }
                }
            }
        }
    }
    // budgets close to what the counters hold
    const HUGE: u32 = 1 << 31;
    for (l, a) in [(HUGE, 1), (0, HUGE), (HUGE, HUGE)] {
        v.push(SimulationConfiguration::new(true, false, true, SimulationLoopCriterion::SpecificNum(l), SimulationActionCriterion::SpecificNum(a)));
    }
    v
}

/// nested loops, loops, atomic actions outside of loops
fn counters(i: &Interaction) -> (u32, u32, u32) {
    match i {
        Interaction::Empty => (0, 0, 0),
        Interaction::Emission(a) => (0, 0, 1 + a.targets.iter().filter_map(|t| if let EmissionTargetRef::Lifeline(x) = t { Some(*x) } else { None }).collect::<BTreeSet<_>>().len() as u32),
        Interaction::Reception(a) => (0, 0, a.recipients.iter().collect::<BTreeSet<_>>().len() as u32),
        Interaction::Loop(_, a) => {
            let x = counters(a);
            (1 + x.0, 1 + x.1, 0)
        }
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => {
            let (x, y) = (counters(a), counters(b));
            (x.0.max(y.0), x.1 + y.1, x.2 + y.2)
        }
    }
}

/// the budgets of unobserved loop instances and actions, on an interaction, when so much is left to observe
fn budgets(c: &SimulationConfiguration, i: &Interaction, left: usize) -> (u32, u32) {
    let (depth, num, out) = counters(i);
    let l = match c.loop_crit {
        SimulationLoopCriterion::MaxDepth => depth,
        SimulationLoopCriterion::MaxNum => num,
        SimulationLoopCriterion::SpecificNum(n) => n,
        SimulationLoopCriterion::None => 0,
    };
    let a = match c.act_crit {
        SimulationActionCriterion::MaxNumOutsideLoops => out,
        SimulationActionCriterion::SpecificNum(n) => n,
        SimulationActionCriterion::None => 0,
    };
    let k = if c.multiply_by_multitrace_length { left as u32 } else { 1 };
    (l.saturating_mul(k), a.saturating_mul(k))
}

/// explicit-state model of simulation: what each component has consumed, what is left of the budgets
struct SimModel<'a> {
    c: &'a SimulationConfiguration,
    p: &'a [Vec<usize>],
    mu: &'a MultiTrace,
    seen: HashSet<(Interaction, Vec<usize>, u32, u32, bool)>,
    succ: &'a mut HashMap<Interaction, Vec<(Letter, u32, Interaction)>>,
    weak: bool,
}

impl<'a> SimModel<'a> {
    /// true: nothing better than what was found can be found
    fn visit(&mut self, i: &Interaction, done: Vec<usize>, l: u32, a: u32, sim: bool) -> bool {
        if done.iter().zip(self.mu).all(|(d, t)| *d == t.len()) {
            self.weak = true;
            return !sim && i.express_empty();
        }
        if !self.seen.insert((i.clone(), done.clone(), l, a, sim)) {
            return false;
        }
        for (acts, depth, next) in successors(self.succ, i) {
            let allowed = (self.c.act_crit == SimulationActionCriterion::None || a >= 1) && (self.c.loop_crit == SimulationLoopCriterion::None || depth <= l);
            // every way of having each component observe, or not, its part
            let mut ways: Vec<(Vec<usize>, bool, bool)> = vec![(done.clone(), false, false)];
            for (k, s) in self.p.iter().enumerate() {
                let part: Letter = acts.iter().filter(|x| s.contains(&x.lf_id)).cloned().collect();
                if part.is_empty() {
                    continue;
                }
                let t = &self.mu[k];
                let mut more = vec![];
                for (d, consumed, simulated) in ways {
                    if d[k] < t.len() && t[d[k]] == part {
                        let mut d2 = d.clone();
                        d2[k] += 1;
                        more.push((d2, true, simulated));
                    }
                    if allowed && (d[k] == t.len() || (self.c.sim_before && d[k] == 0)) {
                        more.push((d, consumed, true));
                    }
                }
                ways = more;
            }
            for (d, consumed, simulated) in ways {
                let left = self.mu.iter().zip(&d).map(|(t, x)| t.len() - x).sum();
                let reset = budgets(self.c, &next, left);
                let (l2, a2) = if consumed {
                    if self.c.reset_crit_after_exec { reset } else { (l, a) }
                } else {
                    (reset.0.min(l.saturating_sub(depth)), reset.1.min(a.saturating_sub(1)))
                };
                if self.visit(&next, d, l2, a2, sim || simulated) {
                    return true;
                }
            }
        }
        false
    }
}

fn successors(succ: &mut Succ, i: &Interaction) -> Vec<(Letter, u32, Interaction)> {
    if let Some(x) = succ.get(i) {
        return x.clone();
    }
    let v: Vec<_> = global_frontier(i, true).into_iter().map(|f| {
        let r = execute_interaction(i, &f.position, &f.target_lf_ids, false);
        (f.target_actions, f.max_loop_depth, r.interaction)
    }).collect();
    succ.insert(i.clone(), v.clone());
    v
}

type Succ = HashMap<Interaction, Vec<(Letter, u32, Interaction)>>;

fn sim_reference(i: &Interaction, p: &[Vec<usize>], mu: &MultiTrace, c: &SimulationConfiguration, succ: &mut Succ, t: &mut Tally) -> V {
    let len = mu.iter().map(|x| x.len()).sum();
    let (l, a) = budgets(c, i, len);
    let mut m = SimModel { c, p, mu, seen: HashSet::new(), succ, weak: false };
    let pass = m.visit(i, vec![0; mu.len()], l, a, false);
    t.bump_by("states_of_the_reference_model", m.seen.len() as u64);
    if pass { V::Pass } else if m.weak { V::WeakPass } else { V::WeakFail }
}

/// A04: simulation
fn simulation(i: &Interaction, lfs: usize, mss: usize, n: usize, th: bool, few: bool, of_loops: bool, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let looped = has_loop(i);
    let mut configs = sim_configs(th);
    if few {
        configs.retain(|c| c.loop_crit == SimulationLoopCriterion::None && matches!(c.act_crit, SimulationActionCriterion::SpecificNum(1) | SimulationActionCriterion::SpecificNum(2) | SimulationActionCriterion::None));
    }
    if of_loops {
        configs.retain(|c| matches!(c.loop_crit, SimulationLoopCriterion::MaxNum | SimulationLoopCriterion::MaxDepth) && c.act_crit == SimulationActionCriterion::SpecificNum(2) && !c.multiply_by_multitrace_length);
    }
    let sync = has_sync(i);
    let mut succ: Succ = HashMap::new();
    each(i, lfs, n, true, lx, false, |p, cl, m, mu, truth, or, lx| {
        for c in &configs {
            if looped && c.loop_crit == SimulationLoopCriterion::None && c.act_crit == SimulationActionCriterion::None {
                continue; // no bound at all
            }
            // what is left of the bounds must keep the search small
            let large = |x: u32| x > 100;
            if looped && matches!((&c.loop_crit, &c.act_crit), (SimulationLoopCriterion::SpecificNum(x), SimulationActionCriterion::SpecificNum(y)) if large(*x) && large(*y)) {
                continue;
            }
            if looped && c.act_crit == SimulationActionCriterion::None
                && !matches!((&c.loop_crit, c.multiply_by_multitrace_length), (SimulationLoopCriterion::SpecificNum(0), _) | (SimulationLoopCriterion::SpecificNum(1), false)) {
                continue;
            }
            if looped && c.multiply_by_multitrace_length && total(m) >= 2
                && !matches!(c.act_crit, SimulationActionCriterion::SpecificNum(0) | SimulationActionCriterion::SpecificNum(1))
                && c.loop_crit != SimulationLoopCriterion::SpecificNum(0) {
                continue;
            }
            let mut o = opts(AnalysisKind::Simulate(c.clone()));
            o.memo = looped;
            if std::env::var("MC_TRACE").is_ok() {
                eprintln!("{} {} {:?}", show(i), show_mu(m, p, lx), c);
            }
            let r = guarded(|| analyze(i, lfs, mss, cl, mu, &o));
            let (nodes, v) = match r {
                Ok(x) => x,
                Err(e) => return Err(fail("crash", i, &o, &show_mu(m, p, lx), format!("panic: {}", e))),
            };
            t.states += nodes as u64;
            t.transitions += nodes as u64 - 1;
            t.validated += 1;
            t.bump(&format!("verdict_{}", v));
            if let Err(e) = judge(&o.kind, &v, truth, true) {
                return Err(fail("verdict", i, &o, &show_mu(m, p, lx), e));
            }
            let want = sim_reference(i, p, mu, c, &mut succ, t);
            if v != want {
                return Err(fail("reference", i, &o, &show_mu(m, p, lx), format!("{}: the reference model gives {}", v, want)));
            }
            let good = v == V::Pass || v == V::WeakPass;
            if !sync && truth.known && !c.reset_crit_after_exec {
                // number of unobserved actions the observation needs
                let need = if c.sim_before { or.slice.get(m) } else { or.multi.get(m) };
                let mult = if c.multiply_by_multitrace_length { total(m) } else { 1 };
                let budget = match c.act_crit {
                    SimulationActionCriterion::SpecificNum(k) => Some((k as usize).saturating_mul(mult)),
                    SimulationActionCriterion::None => None,
                    _ => continue,
                };
                let loops_free = !looped || c.loop_crit == SimulationLoopCriterion::None;
                if !loops_free || (looped && budget.is_none()) {
                    continue;
                }
                if c.multiply_by_multitrace_length {
                    continue; // the budget also shrinks with the remaining length
                }
                // with loops the oracle only knows words of at most 7 actions
                let want = match (need, budget) {
                    (Some(x), Some(b)) => *x <= b,
                    (Some(_), None) => true,
                    (None, _) => false,
                };
                if good != want {
                    return Err(fail("simulation", i, &o, &show_mu(m, p, lx), format!("{}: needs {:?} unobserved actions, allowed {:?}", v, need, budget)));
                }
            }
        }
        Ok(())
    })
}

fn has_sync(i: &Interaction) -> bool {
    show(i).contains("sync")
}

/// A05: options that must not change the verdict
fn invariance(i: &Interaction, lfs: usize, mss: usize, n: usize, th: bool, memo_only: bool, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let sync = has_sync_op(i);
    let mut variants: Vec<Opts> = vec![];
    let sim = |before| AnalysisKind::Simulate(SimulationConfiguration::new(before, false, false, SimulationLoopCriterion::SpecificNum(1), SimulationActionCriterion::SpecificNum(1)));
    for kind in [AnalysisKind::Accept, AnalysisKind::Prefix, AnalysisKind::Eliminate, sim(false), sim(true)] {
        let is_sim = matches!(kind, AnalysisKind::Simulate(_));
        let base = opts(kind);
        for st in [St::Bfs, St::Dfs, St::Hcs] {
            for memo in [false, true] {
                for por in [false, true] {
                    if is_sim && (por || (st == St::Hcs && !memo)) {
                        continue; // no partial order reduction in simulation
                    }
                    if por && sync {
                        continue; // documented: false negatives with the synchronous operator
                    }
                    let locals: Vec<Option<(bool, Option<u32>, u32)>> = if sync { vec![None] } else {
                        vec![None, Some((true, None, 1)), Some((false, None, 1)), Some((false, None, 2)), Some((false, Some(1), 1)), Some((true, Some(0), 1))]
                    };
                    for local in locals {
                        if local.is_some() && is_sim && show(i).contains("sync>") {
                            continue; // a communication half observed and half simulated is free of charge, its local parts are not
                        }
                        if !th && local.is_some() && !(st == St::Dfs && memo && (!is_sim || local.unwrap().2 == 1)) {
                            continue;
                        }
                        let mut o = base.clone();
                        o.st = st;
                        o.memo = memo;
                        o.por = por;
                        o.local = local;
                        variants.push(o);
                    }
                }
            }
            for prio in if st == St::Dfs || th { vec![(2, 1, 0, 0, 0, 0), (0, 2, 1, -1, -1, 3), (1, -1, 2, 2, 1, -1)] } else { vec![] } {
                let mut o = base.clone();
                o.st = st;
                o.memo = true;
                o.prio = prio;
                variants.push(o);
            }
        }
    }
    if memo_only {
        variants.retain(|o| o.local.is_none() && !o.por && o.st != St::Hcs && (o.memo || o.st == St::Bfs));
    }
    each(i, lfs, n, true, lx, false, |p, cl, m, mu, truth, _, lx| {
        let mut truth = *truth;
        if sync {
            truth.known = false;
        }
        let mut refs: BTreeMap<usize, V> = BTreeMap::new();
        for o in &variants {
            let r = guarded(|| analyze(i, lfs, mss, cl, mu, o));
            let (nodes, v) = match r {
                Ok(x) => x,
                Err(e) => return Err(fail("crash", i, o, &show_mu(m, p, lx), format!("panic: {}", e))),
            };
            t.states += nodes as u64;
            t.transitions += nodes as u64 - 1;
            t.validated += 1;
            let ki = match o.kind {
                AnalysisKind::Accept => 0,
                AnalysisKind::Prefix => 1,
                AnalysisKind::Eliminate => 2,
                AnalysisKind::Simulate(ref c) => if c.sim_before { 4 } else { 3 },
            };
            let exp = refs.entry(ki).or_insert_with(|| cp(&v));
            let same = v == *exp || (o.local.is_some() && matches!(exp, V::Inconc(_)) && v == V::Fail);
            // an inconclusive reference may be refined by partial order reduction or local analysis only towards the truth
            let refined = o.por && matches!((&*exp, &v), (V::Inconc(_), V::Fail) | (V::Fail, V::Inconc(_)));
            if !same && !refined {
                return Err(fail("options", i, o, &show_mu(m, p, lx), format!("{}: plain options give {}", v, exp)));
            }
            if let Err(e) = judge(&o.kind, &v, &truth, false) {
                return Err(fail("options", i, o, &show_mu(m, p, lx), e));
            }
        }
        Ok(())
    })
}

/// explicit-state model of the acceptance and prefix analyses within bounds on depth and loop instances
struct CutModel<'a> {
    prefix: bool,
    depth: Option<u32>,
    lp: Option<u32>,
    p: &'a [Vec<usize>],
    mu: &'a MultiTrace,
    seen: HashSet<(Interaction, Vec<usize>, u32, u32)>,
    succ: &'a mut Succ,
    best: u32,
    cut: bool,
}

impl<'a> CutModel<'a> {
    fn visit(&mut self, i: &Interaction, done: Vec<usize>, d: u32, l: u32) {
        if !self.seen.insert((i.clone(), done.clone(), d, l)) {
            return;
        }
        if done.iter().zip(self.mu).all(|(d, t)| *d == t.len()) {
            let x = if i.express_empty() { V::Pass } else if self.prefix { V::WeakPass } else { V::Fail };
            self.best = self.best.max(rank(&x));
            return;
        }
        let mut children = 0;
        for (acts, depth, next) in successors(self.succ, i) {
            let mut d2 = done.clone();
            let ok = self.p.iter().enumerate().all(|(k, s)| {
                let part: Letter = acts.iter().filter(|x| s.contains(&x.lf_id)).cloned().collect();
                if part.is_empty() {
                    return true;
                }
                d2[k] += 1;
                self.mu[k].get(done[k]) == Some(&part)
            });
            if !ok {
                continue;
            }
            children += 1;
            if self.depth.map_or(false, |x| d + 1 > x) || self.lp.map_or(false, |x| l + depth > x) {
                self.cut = true;
            } else {
                self.visit(&next, d2, d + 1, l + depth);
            }
        }
        if children == 0 && self.prefix && done.iter().zip(self.mu).any(|(d, t)| *d == t.len()) {
            self.best = self.best.max(rank(&V::Inconc(InconcReason::LackObs)));
        }
    }
}

/// rank of the verdict of a search cut by bounds
fn cut_reference(prefix: bool, depth: Option<u32>, lp: Option<u32>, i: &Interaction, p: &[Vec<usize>], mu: &MultiTrace, succ: &mut Succ, t: &mut Tally) -> u32 {
    let mut m = CutModel { prefix, depth, lp, p, mu, seen: HashSet::new(), succ, best: 0, cut: false };
    m.visit(i, vec![0; mu.len()], 0, 0);
    t.bump_by("states_of_the_reference_model", m.seen.len() as u64);
    if m.best == 0 && m.cut { rank(&V::Inconc(InconcReason::FilteredNodes)) } else { m.best }
}

/// A06: bounds on the search never produce wrong definite verdicts
fn filters(i: &Interaction, lfs: usize, mss: usize, n: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let sync = has_sync_op(i);
    let mut variants: Vec<Opts> = vec![];
    for kind in [AnalysisKind::Accept, AnalysisKind::Prefix, AnalysisKind::Eliminate,
                 AnalysisKind::Simulate(SimulationConfiguration::new(true, false, false, SimulationLoopCriterion::MaxNum, SimulationActionCriterion::SpecificNum(2)))] {
        for st in [St::Bfs, St::Dfs] {
            for memo in [false, true] {
                for (d, l, c) in [(Some(0), None, None), (Some(1), None, None), (Some(2), None, None), (None, Some(0), None), (None, Some(1), None), (None, Some(2), None),
                                  (None, None, Some(1)), (None, None, Some(2)), (None, None, Some(3)), (Some(2), Some(1), Some(3))] {
                    let mut o = opts(kind.clone());
                    o.st = st;
                    o.memo = memo;
                    o.depth = d;
                    o.lp = l;
                    o.nodes = c;
                    variants.push(o);
                }
            }
        }
    }
    let mut succ: Succ = HashMap::new();
    each(i, lfs, n, true, lx, false, |p, cl, m, mu, truth, _, lx| {
        let mut truth = *truth;
        if sync {
            truth.known = false;
        }
        for o in &variants {
            let r = guarded(|| analyze(i, lfs, mss, cl, mu, o));
            let (nodes, v) = match r {
                Ok(x) => x,
                Err(e) => return Err(fail("crash", i, o, &show_mu(m, p, lx), format!("panic: {}", e))),
            };
            t.states += nodes as u64;
            t.transitions += nodes as u64 - 1;
            t.validated += 1;
            t.bump(&format!("verdict_{}", match v { V::Inconc(_) => "Inconc".to_string(), _ => v.to_string() }));
            if let Some(c) = o.nodes {
                if nodes > c.max(1) {
                    return Err(fail("filters", i, o, &show_mu(m, p, lx), format!("{} nodes though at most {} were asked for", nodes, c)));
                }
            }
            if !o.memo && o.nodes.is_none() && matches!(o.kind, AnalysisKind::Accept | AnalysisKind::Prefix) {
                let want = cut_reference(o.kind == AnalysisKind::Prefix, o.depth, o.lp, i, p, mu, &mut succ, t);
                if rank(&v) != want {
                    return Err(fail("bounds", i, o, &show_mu(m, p, lx), format!("{}: the reference model gives the verdict of rank {}", v, want)));
                }
            }
            if v == V::WeakFail {
                continue; // by definition not definite
            }
            if let Err(e) = judge(&o.kind, &v, &truth, false) {
                return Err(fail("filters", i, o, &show_mu(m, p, lx), e));
            }
        }
        Ok(())
    })
}

/// A07: stopping at a goal
fn goals(i: &Interaction, lfs: usize, mss: usize, n: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let mut kinds = vec![AnalysisKind::Accept, AnalysisKind::Prefix, AnalysisKind::Eliminate];
    for b in [false, true] {
        kinds.push(AnalysisKind::Simulate(SimulationConfiguration::new(b, false, false, SimulationLoopCriterion::SpecificNum(1), SimulationActionCriterion::SpecificNum(2))));
    }
    each(i, lfs, n, false, lx, false, |p, cl, m, mu, _, _, lx| {
        for k in &kinds {
            for st in [St::Bfs, St::Dfs, St::Hcs] {
                let mut o = opts(k.clone());
                o.st = st;
                let (n0, full) = analyze(i, lfs, mss, cl, mu, &o);
                for g in [true, false] {
                    let goal = if g { V::Pass } else { V::WeakPass };
                    let mut o = o.clone();
                    o.goal = Some(g);
                    let (nodes, v) = analyze(i, lfs, mss, cl, mu, &o);
                    t.states += nodes as u64;
                    t.transitions += nodes as u64 - 1;
                    t.validated += 1;
                    let (a, b) = (rank(&v) >= rank(&goal), rank(&full) >= rank(&goal));
                    if a != b || (!b && v != full) || rank(&v) > rank(&full) {
                        return Err(fail("goal", i, &o, &show_mu(m, p, lx), format!("{}: without a goal {}", v, full)));
                    }
                    if nodes > n0 {
                        return Err(fail("goal", i, &o, &show_mu(m, p, lx), format!("{} nodes, {} without a goal", nodes, n0)));
                    }
                    if nodes < n0 {
                        t.bump("stopped_early");
                    }
                }
            }
        }
        Ok(())
    })
}

/// what the command is asked to do: configuration file, kind, goal, whether nothing may be missed
fn commands() -> Vec<(Option<&'static str>, AnalysisKind, Option<bool>, bool)> {
    use AnalysisKind::*;
    let sim = |b, l, a| Simulate(SimulationConfiguration::new(b, false, false, l, a));
    vec![
        (None, Prefix, Some(false), true),
        (Some("@analyze_option{ analysis_kind = accept }"), Accept, Some(false), true),
        (Some("@analyze_option{ analysis_kind = eliminate ; strategy = DepthFS ; memoize = false }"), Eliminate, Some(false), true),
        (Some("@analyze_option{ goal = none ; local_analysis = none ; memoize = false }"), Prefix, None, true),
        (Some("@explore_option{ strategy = BFS } @analyze_option{ strategy = HCS ; goal = Pass ; analysis_kind = accept ; local_analysis = [ select = all , max_look_ahead_depth = 1 , modulo = 2 ] }"), Accept, Some(true), true),
        (Some("@analyze_option{ analysis_kind = eliminate ; local_analysis = none ; goal = none }"), Eliminate, None, true),
        (Some("@analyze_option{ analysis_kind = simulate ; local_analysis = none }"), sim(false, SimulationLoopCriterion::MaxDepth, SimulationActionCriterion::None), Some(false), true),
        (Some("@analyze_option{ analysis_kind = simulate [ slice = true , act num = 2 , loop num = 1 ] ; goal = none ; local_analysis = none ; strategy = DFS }"),
         sim(true, SimulationLoopCriterion::SpecificNum(1), SimulationActionCriterion::SpecificNum(2)), None, true),
        (Some("@analyze_option{ filters = [ max_depth = 1 ] ; goal = none }"), Prefix, None, false),
        (Some("@analyze_option{ filters = [ max_loop_depth = 1 , max_node_number = 5 ] ; analysis_kind = eliminate }"), Eliminate, Some(false), false),
        (Some("@analyze_option{ priorities = [ reception = 2 , emission = -1 , loop = 1 , randomize = true ] ; por = true ; goal = Pass }"), Prefix, Some(true), true),
        (Some("@analyze_option{ por = true ; strategy = DFS ; analysis_kind = accept ; goal = none } @canonize_option{ search_all }"), Accept, None, true),
    ]
}

/// C01: the command, from its files to the verdict it prints
fn command(i: &Interaction, lfs: usize, mss: usize, n: usize, w: &Tool, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let names = Names::std(lfs, mss);
    w.dir.clear();
    std::fs::write(w.dir.file("s.hsf"), names.hsf()).unwrap();
    std::fs::write(w.dir.file("i.hif"), names.hif(i)).unwrap();
    std::fs::write(w.dir.file("g.hcf"), "@analyze_option{ goal = none ; local_analysis = none ; loggers = [ tracegen [ folder = tg , prefix = w ] ] }").unwrap();
    std::fs::write(w.dir.file("h.hcf"), "@analyze_option{ loggers = [ tracegen [ partition = discrete ] ] ; strategy = DFS ; goal = none }").unwrap();
    let language = lx.lang(i, 7);
    let g = gen_ctx(lfs, mss);
    let all = commands();
    for (k, c) in all.iter().enumerate() {
        if let Some(x) = c.0 {
            std::fs::write(w.dir.file(&format!("c{}.hcf", k)), x).unwrap();
        }
    }
    each(i, lfs, n, true, lx, true, |p, _, m, mu, truth, _, lx| {
        let comps: Vec<_> = p.iter().cloned().zip(mu.iter().cloned()).collect();
        std::fs::write(w.dir.file("t.htf"), names.htf(&comps)).unwrap();
        for (k, (_, kind, goal, exact)) in all.iter().enumerate() {
            if has_loop(i) && matches!(kind, AnalysisKind::Simulate(c) if c.act_crit == SimulationActionCriterion::None) && total(m) > 1 {
                continue;
            }
            let file = format!("c{}.hcf", k);
            let mut args = vec!["analyze", "s.hsf", "i.hif", "t.htf"];
            if all[k].0.is_some() {
                args.push(&file);
            }
            let bad = |what: String| {
                let mut f = fail("command", i, &opts(kind.clone()), &show_mu(m, p, lx), what);
                f.detail += &format!("\nconfiguration: {}", all[k].0.unwrap_or("none"));
                f
            };
            t.validated += 1;
            t.bump("runs_of_the_tool");
            let o = w.cli.run(&args);
            if o.panicked() {
                return Err(bad(format!("the tool crashes: {}", o.err)));
            }
            let v = match o.value("verdict").as_deref() {
                Some("Pass") => V::Pass,
                Some("WeakPass") => V::WeakPass,
                Some("WeakFail") => V::WeakFail,
                Some("Fail") => V::Fail,
                Some(x) if x.starts_with("Inconc") => V::Inconc(InconcReason::FilteredNodes),
                x => return Err(bad(format!("verdict {:?}: {}", x, o.text))),
            };
            match o.value("node count").and_then(|x| x.parse::<u64>().ok()) {
                Some(x) if x > 0 => {
                    t.states += x;
                    t.transitions += x - 1;
                }
                x => return Err(bad(format!("node count {:?}", x))),
            }
            if !o.text.contains(&format!("of length '{}'", total(m))) {
                return Err(bad(format!("the length is not {}: {}", total(m), o.text)));
            }
            t.bump(&format!("verdict_{}", match v { V::Inconc(_) => "Inconc".to_string(), _ => v.to_string() }));
            if v == V::WeakFail && !exact {
                continue;
            }
            let early = *goal == Some(false) && v == V::WeakPass && truth.accepted && !matches!(kind, AnalysisKind::Accept);
            if let Err(e) = judge(kind, &v, truth, *exact && !early) {
                return Err(bad(e));
            }
        }
        // the traces an analysis goes through, written in files
        let written = |conf: &str, folder: &str, prefix: &str, q: Vec<Vec<usize>>| -> Result<BTreeSet<MultiTrace>, String> {
            let out = w.cli.run(&["analyze", "s.hsf", "i.hif", "t.htf", conf]);
            if out.panicked() {
                return Err(out.err);
            }
            let mut got = BTreeSet::new();
            let mut names = BTreeSet::new();
            for e in std::fs::read_dir(w.dir.file(folder)).map_err(|e| e.to_string())? {
                let path = e.unwrap().path();
                names.insert(path.file_name().unwrap().to_str().unwrap().to_string());
                let (c, x) = parse_htf_file(&g, path.to_str().unwrap()).map_err(|e| format!("{:?}: {}", path, e))?;
                if c.locs_lf_ids != coloc(&q).locs_lf_ids {
                    return Err(format!("{:?}: components {:?}", path, c.locs_lf_ids));
                }
                got.insert(x);
            }
            if names != (1..=names.len()).map(|k| format!("{}{}.htf", prefix, k)).collect() {
                return Err(format!("files {:?}", names));
            }
            Ok(got)
        };
        let apart_of = |w: Word, p: &[Vec<usize>]| -> MultiTrace {
            p.iter().map(|s| lx.letters_of(w).into_iter().map(|l| l.into_iter().filter(|a| s.contains(&a.lf_id)).collect::<Letter>()).filter(|l| !l.is_empty()).collect()).collect()
        };
        let observed: Vec<Word> = language.iter().copied().filter(|x| {
            let c = apart_of(*x, p);
            wlen(*x) > 0 && c.iter().zip(mu).all(|(x, y)| x.len() <= y.len() && y[..x.len()] == x[..])
        }).collect();
        let whole = vec![(0..lfs).collect::<Vec<_>>()];
        let apart: Vec<Vec<usize>> = (0..lfs).map(|x| vec![x]).collect();
        for (conf, folder, prefix, q) in [("g.hcf", "tg", "w", whole), ("h.hcf", "tracegen_l1", "trace", apart)] {
            t.validated += 1;
            t.bump("runs_of_the_tool");
            let want: BTreeSet<MultiTrace> = observed.iter().map(|x| apart_of(*x, &q)).collect();
            match written(conf, folder, prefix, q) {
                // local analyses may cut paths
                Ok(x) if x == want || (conf == "h.hcf" && x.is_subset(&want)) => {}
                Ok(x) => return Err(fail("traces", i, &opts(AnalysisKind::Prefix), &show_mu(m, p, lx), format!("{}: {:?} instead of {:?}", conf, x, want))),
                Err(e) => return Err(fail("traces", i, &opts(AnalysisKind::Prefix), &show_mu(m, p, lx), format!("{}: {}", conf, e))),
            }
        }
        Ok(())
    })
}

struct Tool {
    dir: Scratch,
    cli: Cli,
}

fn cp(v: &V) -> V {
    match v {
        V::Pass => V::Pass,
        V::WeakPass => V::WeakPass,
        V::Inconc(r) => V::Inconc(r.clone()),
        V::WeakFail => V::WeakFail,
        V::Fail => V::Fail,
    }
}

fn rank(v: &V) -> u32 {
    match v {
        V::Fail => 0,
        V::WeakFail => 1,
        V::Inconc(_) => 2,
        V::WeakPass => 3,
        V::Pass => 4,
    }
}

fn universe(id: &str, th: bool) -> Multi {
    let mut parts = vec![];
    let mut all = atoms_single(3, 1);
    all.extend(atoms_comm(3, 1, true));
    all.extend(atoms_exotic());
    let cr = |l: &[usize]| Op::CoReg(l.to_vec());
    let sync = Op::Sync(vec![em(0, 0)]);
    let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, cr(&[0])];
    let mut ops_s = ops.clone();
    if id == "A01" {
        ops_s.push(sync);
    }
    let small = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true), a_empty()];
    parts.push(Universe::new("1 leaf, all action forms, <=2 loops", 3, 2, all.clone(), 1, vec![], 0, 2, true));
    match id {
        "C01" => {
            let few = vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true)];
            parts.push(Universe::new("2 leaves, no loop", 2, 1, if th { small.clone() } else { few.clone() }, 2, ops.clone(), 0, 0, true));
            parts.push(Universe::new("2 leaves, 1 loop", 2, 1, if th { few } else { vec![a_em(0, 0), a_em(1, 0)] }, 2, vec![Op::Strict, Op::Seq, Op::Alt, Op::Par], 1, 1, true));
        }
        "A01" | "A02" | "A03" => {
            parts.push(Universe::new("2 leaves, all action forms, no loop", 3, 1, all.clone(), 2, ops_s.clone(), 0, 0, true));
            parts.push(Universe::new("2 leaves, 1 loop", 3, 1, small.clone(), 2, ops_s.clone(), 1, 1, true));
            parts.push(Universe::new("3 leaves, no loop", 2, 1, vec![a_em(0, 0), a_em(0, 1), a_em(1, 0), a_empty()], 3, ops.clone(), 0, 0, false));
            parts.push(Universe::new("3 leaves, communications, no loop", 3, 1, small.clone(), 3, ops.clone(), 0, 0, true));
            parts.push(Universe::new("3 leaves, 1 loop", 2, 1, vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], false)], 3, ops.clone(), 1, 1, true));
            if id == "A02" || th {
                parts.push(Universe::new("4 leaves, strict alternatives", 2, 2, vec![a_em(0, 0), a_em(1, 0), a_em(0, 1)], 4, vec![Op::Strict, Op::Alt], 0, 0, false));
            }
            if th {
                parts.push(Universe::new("2 leaves, 2 loops", 2, 1, small.clone(), 2, ops_s.clone(), 2, 2, true));
                parts.push(Universe::new("3 leaves, communications, 1 loop", 3, 1, small.clone(), 3, ops.clone(), 1, 1, true));
            }
        }
        _ => {
            parts.push(Universe::new("2 leaves, <=1 loop", 2, 1, small.clone(), 2, ops.clone(), 0, 1, true));
            if id != "A04" || th {
                parts.push(Universe::new("3 leaves, no loop", 2, 1, vec![a_em(0, 0), a_em(0, 1), a_em(1, 0)], 3, if th { ops.clone() } else { vec![Op::Strict, Op::Seq, Op::Alt, Op::Par] }, 0, 0, true));
            }
        }
    }
    if id == "A04" {
        let pair = |a: Atom, b: Atom| Atom { int: Interaction::Strict(Box::new(a.int), Box::new(b.int)), lfs: [a.lfs, b.lfs].concat(), ms: vec![0] };
        let (x, y) = (|| a_em(0, 0), || a_em(1, 0));
        let pairs = vec![pair(x(), x()), pair(x(), y()), pair(y(), x()), pair(y(), y())];
        parts.push(Universe::new("budgets from the loops: 2 leaves, each of two actions, <=2 loops", 2, 1, vec![pair(x(), y()), pair(y(), x())], 2, ops.clone(), 0, 2, false));
        parts.push(Universe::new("few criteria: 3 leaves, each of two actions", 2, 1, pairs, 3, vec![Op::Strict, Op::Seq], 0, 0, true));
        parts.push(Universe::new("few criteria: 3 leaves, synchronous communications, no loop", 2, 2, vec![a_comm(0, 0, &[1], true), a_comm(0, 1, &[1], true), a_em(0, 1), a_rc(&[1], 1, false)], 3,
                                 if th { vec![Op::Strict, Op::Seq, Op::Alt, Op::Par] } else { vec![Op::Strict, Op::Seq] }, 0, 0, false));
    }
    if id == "A05" {
        // what partial order reduction and memoization may get wrong needs optional parts next to other components
        parts.push(Universe::new("3 leaves, optional parts, no loop", 2, 1, vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true), a_empty()], 3,
                                 vec![Op::Strict, Op::Seq, Op::Alt, Op::Par], 0, 0, false));
        parts.push(Universe::new("3 leaves, 1 loop", 2, 1, vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], false)], 3,
                                 if th { ops.clone() } else { vec![Op::Strict, Op::Seq, Op::Alt] }, 1, 1, !th));
        parts.push(Universe::new("4 leaves, strict alternatives", 2, 2, vec![a_em(0, 0), a_em(1, 0), a_em(0, 1)], 4, vec![Op::Strict, Op::Alt], 0, 0, false));
        if th {
        parts.push(Universe::new("memo: 5 leaves of one lifeline", 1, 1, vec![a_em(0, 0), a_em(0, 1), a_empty()], 5, vec![Op::Strict, Op::Alt], 0, 0, false));
        }
    }
    Multi { parts }
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let u = universe(&id, th);
    r.bounds = u.describe();
    let n = u.size();
    let only: Option<u64> = std::env::var("MC_ITEM").ok().and_then(|s| s.parse().ok());
    r.sweep(n, || (Lx::new(), None), |idx, w: &mut (Lx, Option<Tool>), t| {
        let (lx, tool) = w;
        if let Some(o) = only {
            if idx != o {
                return Ok(());
            }
        }
        let (part, term) = u.decode(idx);
        let term = match term {
            Some(x) => x,
            None => return Ok(()),
        };
        if acts(&term) > 7 {
            return Ok(());
        }
        t.items += 1;
        if idx % 97 == 5 {
            t.sample(|| show(&term));
        }
        t.bump("terms");
        if lx.letters.len() > 150 {
            *lx = Lx::new();
        }
        let lfs = u.parts[part].lfs;
        let mss = u.parts[part].mss.max(if u.parts[part].name.contains("3 leaves, no loop") || u.parts[part].name.starts_with("4 leaves") || u.parts[part].name.starts_with("memo") { 2 } else { 1 });
        let k = term_bound(&term, th);
        match id.as_str() {
            "A01" => verdicts(AnalysisKind::Accept, &term, lfs, mss, k, lx, t),
            "A02" => verdicts(AnalysisKind::Prefix, &term, lfs, mss, k, lx, t),
            "A03" => verdicts(AnalysisKind::Eliminate, &term, lfs, mss, k, lx, t),
            "A04" => {
                let loops = show(&term).matches("loop").count();
                let few = u.parts[part].name.starts_with("few");
                let k = if u.parts[part].name.contains("synchronous") { 4 } else if loops >= 2 { 1 } else if loops == 1 && acts(&term) > 2 { if th { 2 } else { 1 } } else if loops == 1 { 2 } else { 3 };
                let of_loops = u.parts[part].name.starts_with("budgets");
                if of_loops && loops == 0 {
                    return Ok(());
                }
                simulation(&term, lfs, mss, if of_loops { 2 } else { k }, th, few, of_loops, lx, t)
            }
            "A05" => invariance(&term, lfs, mss, if !th && u.parts[part].name.contains("3 leaves, 1 loop") { 2 } else { k }, th, u.parts[part].name.starts_with("memo"), lx, t),
            "A06" => filters(&term, lfs, mss, k, lx, t),
            "C01" => {
                let tool = tool.get_or_insert_with(|| {
                    let dir = Scratch::new();
                    Tool { cli: Cli::new(&dir.dir), dir }
                });
                command(&term, lfs, mss.max(2), if th { 3 } else if lfs == 3 { 1 } else { 2 }, tool, lx, t)
            }
            "A07" => goals(&term, lfs, mss, k, lx, t),
            _ => panic!("unknown property"),
        }
    });
    std::process::exit(r.finish());
}
