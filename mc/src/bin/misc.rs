//! Checks of the generation of interactions, metrics and exports: G01.., P01.. (see /verif/DESIGN.md).
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use rand::rngs::StdRng;
use rand::SeedableRng;

use mc::cli::{Cli, Quiet};
use mc::hif::Names;
use mc::lang::*;
use mc::report::*;
use mc::rngctl::{all_choices, all_choices_under};
use mc::scratch::Scratch;
use mc::universe::*;

use hibou::core::general_context::GeneralContext;
use hibou::core::language::syntax::action::EmissionTargetRef;
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};
use hibou::core::language::syntax::metrics::{InteractionMetrics, SymbolKind};
use hibou::experiments::interaction_random_gen::interface::generate_canonical_random_interaction;
use hibou::experiments::interaction_random_gen::probas::{InteractionGenerationSymbol as Y, InteractionSymbolsProbabilities as P};
use hibou::io::input::hif::interface::parse_hif_file;
use hibou::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
use hibou::nfa_translation::canonize::canonize_interaction;
use hibou::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
use hibou::plantuml::sequence::to_plant_uml_sd;
use hibou::process::canon::param::default::DefaultCanonizationProcess;

struct W {
    dir: Scratch,
    cli: Cli,
    lx: Lx,
}

fn fail(key: &str, i: &Interaction, what: String) -> Failure {
    Failure { key: key.into(), detail: format!("interaction: {}\n{}", show(i), what) }
}

fn bad(key: &str, what: String) -> Failure {
    Failure { key: key.into(), detail: what }
}

// ---------------------------------------------------------------------------------------------
// own measures of terms

#[derive(Default, Debug, PartialEq, Eq, Clone)]
struct Measure {
    kinds: BTreeMap<&'static str, u32>,
    depth: u32,
    loop_depth: u32,
    loops: u32,
    lifelines: BTreeSet<usize>,
    messages: BTreeSet<usize>,
}

fn measure(i: &Interaction, d: u32, ld: u32, m: &mut Measure) {
    let mut bin = |k: &'static str, a: &Interaction, b: &Interaction, m: &mut Measure| {
        *m.kinds.entry(k).or_insert(0) += 1;
        measure(a, d + 1, ld, m);
        measure(b, d + 1, ld, m);
    };
    match i {
        Interaction::Empty => {
            *m.kinds.entry("empty").or_insert(0) += 1;
        }
        Interaction::Emission(e) => {
            *m.kinds.entry("action").or_insert(0) += 1;
            m.lifelines.insert(e.origin_lf_id);
            m.messages.insert(e.ms_id);
            for t in &e.targets {
                if let EmissionTargetRef::Lifeline(l) = t {
                    m.lifelines.insert(*l);
                }
            }
        }
        Interaction::Reception(r) => {
            *m.kinds.entry("action").or_insert(0) += 1;
            m.lifelines.extend(r.recipients.iter().cloned());
            m.messages.insert(r.ms_id);
        }
        Interaction::Strict(a, b) => bin("strict", a, b, m),
        Interaction::Seq(a, b) => bin("seq", a, b, m),
        Interaction::Par(a, b) => bin("par", a, b, m),
        Interaction::Alt(a, b) => bin("alt", a, b, m),
        Interaction::CoReg(_, a, b) => bin("coreg", a, b, m),
        Interaction::Sync(_, a, b) => bin("sync", a, b, m),
        Interaction::And(a, b) => bin("and", a, b, m),
        Interaction::Loop(k, a) => {
            *m.kinds.entry(match k {
                LoopKind::SStrictSeq => "loopS",
                LoopKind::WWeakSeq => "loopW",
                LoopKind::HHeadFirstWS => "loopH",
                LoopKind::PInterleaving => "loopP",
            }).or_insert(0) += 1;
            m.loops += 1;
            measure(a, d + 1, ld + 1, m);
        }
    }
    m.depth = m.depth.max(d);
    m.loop_depth = m.loop_depth.max(ld);
}

fn measured(i: &Interaction) -> Measure {
    let mut m = Measure::default();
    measure(i, 0, 0, &mut m);
    m
}

impl Measure {
    fn n(&self, k: &str) -> u32 {
        self.kinds.get(k).cloned().unwrap_or(0)
    }
    fn symbols(&self) -> u32 {
        self.kinds.values().sum()
    }
}

// ---------------------------------------------------------------------------------------------
// G01: random generation

fn probas(k: usize) -> (&'static str, P, Vec<(Y, f32)>, &'static [&'static str]) {
    match k {
        0 => ("default", P::default_non_regular(),
              vec![(Y::Empty, 0.025), (Y::Basic, 0.125), (Y::Action, 0.05), (Y::Seq, 0.3), (Y::Alt, 0.15), (Y::LoopW, 0.15), (Y::LoopP, 0.1), (Y::Par, 0.1)],
              &["empty", "action", "strict", "seq", "alt", "loopW", "loopP", "par"]),
        1 => ("conservative", P::conservative(),
              vec![(Y::Empty, 0.025), (Y::Basic, 0.175), (Y::Action, 0.15), (Y::Seq, 0.3), (Y::Alt, 0.15), (Y::LoopW, 0.15), (Y::Par, 0.05)],
              &["empty", "action", "strict", "seq", "alt", "loopW", "par"]),
        2 => ("protocols_with_coreg", P::protocols_with_coreg(),
              vec![(Y::Empty, 0.025), (Y::Transmission, 0.175), (Y::Broadcast, 0.1), (Y::Seq, 0.2), (Y::Coreg, 0.1), (Y::Alt, 0.2), (Y::LoopW, 0.15), (Y::Par, 0.05)],
              &["empty", "action", "seq", "coreg", "alt", "loopW", "par"]),
        3 => ("regular", P::default_regular(),
              vec![(Y::Empty, 0.025), (Y::Action, 0.175), (Y::Strict, 0.1), (Y::Seq, 0.3), (Y::Alt, 0.15), (Y::LoopS, 0.15), (Y::Par, 0.1)],
              &["empty", "action", "strict", "seq", "alt", "loopS", "par"]),
        _ => ("high level regular", P::default_high_level_regular(),
              vec![(Y::Empty, 0.05), (Y::Action, 0.15), (Y::Basic, 0.3), (Y::Strict, 0.15), (Y::Par, 0.05), (Y::LoopS, 0.1), (Y::Alt, 0.2)],
              &["empty", "action", "strict", "seq", "alt", "loopS", "par"]),
    }
}

/// the share of the random numbers that select a symbol is its probability
fn shares(k: usize, t: &mut Tally) -> Result<(), Failure> {
    let (name, p, want, _) = probas(k);
    let grid = 1000usize;
    let mut count: BTreeMap<Y, u32> = BTreeMap::new();
    let mut rng = StdRng::seed_from_u64(0);
    let (st, r) = all_choices(4, grid, 10_000, |_| -> Result<(), Failure> {
        *count.entry(p.get_random_symbol(&mut rng)).or_insert(0) += 1;
        Ok(())
    });
    t.states += st.runs;
    t.transitions += st.decisions;
    t.validated += st.runs;
    r?;
    for (y, q) in &want {
        let got = count.remove(y).unwrap_or(0) as f32 / grid as f32;
        if (got - q).abs() > 0.0021 {
            return Err(bad("share", format!("{}: {:?} is selected for {} of the random numbers instead of {}", name, y, got, q)));
        }
    }
    if !count.is_empty() {
        return Err(bad("share", format!("{}: {:?} is selected", name, count)));
    }
    Ok(())
}

/// only distributions are accepted as probabilities
fn distributions(t: &mut Tally) -> Result<(), Failure> {
    let ys = [Y::Empty, Y::Action, Y::Seq, Y::LoopS];
    let vals = [-0.25f32, 0.0, 0.25, 0.5, 0.75, 1.0, 1.25];
    for c in 0..vals.len().pow(4) {
        let v: Vec<f32> = (0..4).map(|k| vals[c / vals.len().pow(k) % vals.len()]).collect();
        for n in 0..=4usize {
            let m: HashMap<Y, f32> = ys.iter().cloned().zip(v.iter().cloned()).take(n).collect();
            let ok = v[..n].iter().all(|x| *x >= 0.0 && *x <= 1.0) && (v[..n].iter().sum::<f32>() - 1.0).abs() < 1e-4;
            t.states += 1;
            t.validated += 1;
            let got = guarded(|| P::from_map(m)).map_err(|p| bad("panic", format!("{:?}: {}", &v[..n], p)))?;
            if got.is_ok() != ok {
                return Err(bad("distribution", format!("probabilities {:?}: {:?}", &v[..n], got.err())));
            }
            if let Ok(p) = got {
                let mut rng = StdRng::seed_from_u64(0);
                let mut count = vec![0u32; 4];
                let (st, _) = all_choices(4, 100, 1000, |_| -> Result<(), Failure> {
                    let y = p.get_random_symbol(&mut rng);
                    count[ys.iter().position(|x| *x == y).unwrap_or(0)] += 1;
                    Ok(())
                });
                t.states += st.runs;
                t.transitions += st.decisions;
                for k in 0..n {
                    if (count[k] as f32 - 100.0 * v[k]).abs() > 1.1 {
                        return Err(bad("share", format!("probabilities {:?}: selected {:?} times out of 100", &v[..n], count)));
                    }
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Gen {
    probas: usize,
    lfs: usize,
    mss: usize,
    depth: u32,
    min: u32,
    first: u64,
    second: u64,
}

/// a lifeline of a co-region that is not involved on both sides
fn idle_coregion(i: &Interaction) -> Option<usize> {
    match i {
        Interaction::CoReg(c, a, b) => {
            let (x, y) = (measured(a).lifelines, measured(b).lifelines);
            c.iter().find(|l| !x.contains(l) || !y.contains(l)).copied().or_else(|| idle_coregion(a)).or_else(|| idle_coregion(b))
        }
        Interaction::Loop(_, a) => idle_coregion(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => idle_coregion(a).or_else(|| idle_coregion(b)),
        _ => None,
    }
}

fn generation(c: &Gen, grid: usize, t: &mut Tally) -> Result<(), Failure> {
    let (name, p, _, kinds) = probas(c.probas);
    let g = gen_ctx(c.lfs, c.mss);
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut last: Option<(u64, Option<Interaction>)> = None;
    let mut out: Vec<Option<Interaction>> = vec![];
    let (st, r) = all_choices_under(&[c.first, c.second], 400, grid, 6_000_000, |run| {
        let mut rng = StdRng::seed_from_u64(run % 3);
        let i = generate_canonical_random_interaction(&g, &mut rng, c.depth, c.min, &p);
        if run % 16 == 0 {
            last = Some((run, i.clone()));
            out.push(i.clone());
        }
        t.validated += 1;
        let i = match i {
            None => {
                if c.min == 0 {
                    return Err(bad("none", format!("{:?}: nothing generated although any size will do", c)));
                }
                return Ok(());
            }
            Some(x) => x,
        };
        let m = measured(&i);
        if m.symbols() < c.min {
            return Err(fail("small", &i, format!("{:?} {}: {} symbols", c, name, m.symbols())));
        }
        if m.lifelines.iter().any(|l| *l >= c.lfs) || m.messages.iter().any(|x| *x >= c.mss) {
            return Err(fail("undeclared", &i, format!("{:?} {}", c, name)));
        }
        if let Some(k) = m.kinds.keys().find(|k| !kinds.contains(*k)) {
            return Err(fail("kind", &i, format!("{:?} {}: {} has no probability to appear", c, name, k)));
        }
        if m.n("action") > 1 << c.depth || m.loops > (1 << c.depth) {
            return Err(fail("large", &i, format!("{:?} {}", c, name)));
        }
        if let Some(l) = idle_coregion(&i) {
            return Err(fail("co-region", &i, format!("{:?} {}: a co-region over lifeline {} that one side does not involve", c, name, l)));
        }
        seen.insert(show(&i));
        Ok(())
    });
    let _ = last;
    t.states += st.runs;
    t.transitions += st.decisions;
    r?;
    if st.cut > 0 {
        return Err(bad("endless", format!("{:?} {}: generation does not end", c, name)));
    }
    *t.extra.entry("generated interactions".into()).or_insert(0) += seen.len() as u64;
    Ok(())
}

/// the command: a seed determines the files, which can be read
fn gen_cli(seed: u64, k: usize, num: u32, depth: u32, min: u32, tries: Option<u32>, folder: Option<&str>, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(2, 2);
    let g = gen_ctx(2, 2);
    let mut runs: Vec<BTreeMap<String, String>> = vec![];
    let (name, _, _, kinds) = probas(k);
    for _ in 0..2 {
        w.dir.clear();
        std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
        let (a, b, c, d, e) = (seed.to_string(), num.to_string(), depth.to_string(), min.to_string(), tries.map(|x| x.to_string()));
        let mut args = vec!["rng_gen_interactions", "s.hsf", "-s", &a, "-i", &b, "-d", &c, "-x", &d, "-p", name];
        if let Some(e) = &e {
            args.extend(["-n", e]);
        }
        if let Some(f) = folder {
            args.extend(["-f", f]);
        }
        let o = w.cli.run(&args);
        t.states += 1;
        t.bump("runs_of_the_tool");
        if o.panicked() {
            return Err(bad("panic", format!("{:?}: {}", args, o.err)));
        }
        // what was generated, and how, is reported
        let numbers = format!("num_ints : {}, max_depth : {}, min_symbols : {}, seed : {}", num, depth, min, seed);
        for x in [format!("with {} interaction symbols", name), numbers, format!("'{}'", folder.unwrap_or("gen_ints"))] {
            if !o.text.contains(&x) {
                return Err(bad("report", format!("{:?}: '{}' is not in\n{}", args, x, o.text)));
            }
        }
        let dir = w.dir.file(folder.unwrap_or("gen_ints"));
        let mut files = BTreeMap::new();
        for f in std::fs::read_dir(&dir).map_err(|e| bad("folder", format!("{:?}: {}", args, e)))? {
            let f = f.unwrap().path();
            files.insert(f.file_name().unwrap().to_str().unwrap().to_string(), std::fs::read_to_string(&f).unwrap());
        }
        let want: BTreeSet<String> = (0..files.len()).map(|x| format!("i{}.hif", x)).collect();
        if files.len() > num as usize || files.keys().cloned().collect::<BTreeSet<_>>() != want {
            return Err(bad("files", format!("{:?}: {:?}", args, files.keys())));
        }
        if min == 0 && num > 0 && files.is_empty() {
            return Err(bad("files", format!("{:?}: nothing generated", args)));
        }
        let mut all = BTreeSet::new();
        for (f, text) in &files {
            t.validated += 1;
            t.transitions += 1;
            let i = match parse_hif_file(&g, &format!("{}/{}", dir, f)) {
                Ok(x) => x,
                Err(e) => return Err(bad("unreadable", format!("{:?}: {}\n{}", args, e, text))),
            };
            let m = measured(&i);
            if m.symbols() < min || m.n("action") > 1 << depth || m.kinds.keys().any(|x| !kinds.contains(x)) {
                return Err(fail("generated", &i, format!("{:?}: {:?}", args, m)));
            }
            if !all.insert(i.clone()) {
                return Err(fail("twice", &i, format!("{:?}: generated twice", args)));
            }
        }
        runs.push(files);
    }
    if runs[0] != runs[1] {
        return Err(bad("seed", format!("seed {} probabilities {}: {:?} then {:?}", seed, name, runs[0], runs[1])));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// G02: metrics

fn metrics_api(i: &Interaction, t: &mut Tally) -> Result<(), Failure> {
    let m = measured(i);
    let got = InteractionMetrics::extract_from_interaction(i);
    t.validated += 1;
    let want: Vec<(SymbolKind, u32)> = vec![
        (SymbolKind::Empty, m.n("empty")),
        (SymbolKind::Action, m.n("action")),
        (SymbolKind::Strict, m.n("strict")),
        (SymbolKind::Seq, m.n("seq")),
        (SymbolKind::Par, m.n("par")),
        (SymbolKind::LoopS, m.n("loopS")),
        (SymbolKind::LoopOther, m.n("loopW") + m.n("loopH") + m.n("loopP")),
        (SymbolKind::CoReg, m.n("coreg")),
        (SymbolKind::Alt, m.n("alt")),
        (SymbolKind::Sync, m.n("sync")),
        (SymbolKind::And, m.n("and")),
    ];
    for (k, n) in &want {
        if got.symbols.get(k).cloned().unwrap_or(0) != *n {
            return Err(fail("symbols", i, format!("{:?}: {:?} instead of {}", k, got.symbols.get(k), n)));
        }
    }
    let mut title = String::new();
    InteractionMetrics::add_csv_title_line(&mut title);
    let mut line = String::new();
    got.add_csv_line(&mut line);
    let (a, b): (Vec<&str>, Vec<&str>) = (title.split(',').collect(), line.split(',').collect());
    if a.len() != b.len() {
        return Err(fail("csv", i, format!("{} / {}", title, line)));
    }
    let col = |x: &str| a.iter().position(|y| *y == x).map(|k| b[k].to_string()).unwrap_or_default();
    for (k, n) in &want {
        let name = format!("{:?}", k);
        if col(&name) != n.to_string() {
            return Err(fail("csv", i, format!("column {} holds {}: {} / {}", name, col(&name), title, line)));
        }
    }
    for (c, n) in [("depth", m.depth), ("loop_depth", m.loop_depth), ("num_lifelines", m.lifelines.len() as u32), ("num_symbols", m.symbols())] {
        if col(c) != n.to_string() {
            return Err(fail("csv", i, format!("column {} holds {} instead of {}", c, col(c), n)));
        }
    }
    if got.depth != m.depth || got.max_nested_loop_depth != m.loop_depth || got.lifelines.iter().cloned().collect::<BTreeSet<_>>() != m.lifelines || got.get_num_symbols() != m.symbols() {
        return Err(fail("metrics", i, format!("depth {} loops {} lifelines {:?} symbols {}", got.depth, got.max_nested_loop_depth, got.lifelines, got.get_num_symbols())));
    }
    if m.n("and") == 0 && (i.max_nested_loop_depth() != m.loop_depth || i.total_loop_num() != m.loops) {
        return Err(fail("loops", i, format!("{} nested, {} loops", i.max_nested_loop_depth(), i.total_loop_num())));
    }
    Ok(())
}

fn only_strict_loops(i: &Interaction) -> bool {
    let m = measured(i);
    m.loops == m.n("loopS")
}

/// number of states and edges of the minimal automaton (without dead state) of a language known up to k
/// letters; prefixes up to `p` letters are told apart by what may follow, up to k - p letters
fn minimal(l: &Lang, k: usize, p: usize, letters: &[u8]) -> (usize, usize) {
    let mut classes: BTreeSet<Lang> = BTreeSet::new();
    let mut level: BTreeSet<Lang> = BTreeSet::new();
    level.insert(cut(l, k));
    for d in 0..=p {
        let mut next = BTreeSet::new();
        for x in &level {
            classes.insert(cut(x, k - p));
            if d < p {
                for a in letters {
                    next.insert(cut(&Lx::residual(x, *a), k - d - 1));
                }
            }
        }
        level = next;
    }
    classes.retain(|x| !x.is_empty());
    let edges = classes.iter().map(|x| x.iter().filter(|w| **w != 0).map(|w| (*w & 0xff) as u8).collect::<BTreeSet<u8>>().len()).sum();
    (classes.len().max(1), edges)
}

/// number of states and edges of the minimal deterministic automaton (without dead state)
/// equivalent to a given one: subset construction, then refinement of partitions
fn minimal_of<L: Eq + std::hash::Hash + Clone>(initials: &HashSet<usize>, finals: &HashSet<usize>, transitions: &[HashMap<L, HashSet<usize>>]) -> (usize, usize) {
    let mut letters: Vec<L> = vec![];
    for m in transitions {
        for l in m.keys() {
            if !letters.contains(l) {
                letters.push(l.clone());
            }
        }
    }
    let mut ids: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
    let mut list: Vec<BTreeSet<usize>> = vec![initials.iter().copied().collect()];
    ids.insert(list[0].clone(), 0);
    let mut to: Vec<Vec<usize>> = vec![];
    let mut at = 0;
    while at < list.len() {
        let s = list[at].clone();
        let mut row = vec![];
        for l in &letters {
            let n: BTreeSet<usize> = s.iter().filter_map(|x| transitions[*x].get(l)).flatten().copied().collect();
            let k = match ids.get(&n) {
                Some(k) => *k,
                None => {
                    list.push(n.clone());
                    ids.insert(n, list.len() - 1);
                    list.len() - 1
                }
            };
            row.push(k);
        }
        to.push(row);
        at += 1;
    }
    let accepting: Vec<bool> = list.iter().map(|s| s.iter().any(|x| finals.contains(x))).collect();
    let mut class: Vec<usize> = accepting.iter().map(|x| *x as usize).collect();
    let mut count = 0;
    loop {
        let mut sig: BTreeMap<(usize, Vec<usize>), usize> = BTreeMap::new();
        let mut next = vec![];
        for q in 0..list.len() {
            let s = (class[q], to[q].iter().map(|x| class[*x]).collect::<Vec<_>>());
            let n = sig.len();
            next.push(*sig.entry(s).or_insert(n));
        }
        let same = sig.len() == count;
        count = sig.len();
        class = next;
        if same {
            break;
        }
    }
    // the class from which nothing can be accepted is the one that only leads to itself and rejects
    let dead: Option<usize> = (0..list.len()).find(|q| !accepting[*q] && to[*q].iter().all(|x| class[*x] == class[*q])).map(|q| class[q]);
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    for q in 0..list.len() {
        if Some(class[q]) != dead {
            for (l, x) in to[q].iter().enumerate() {
                if Some(class[*x]) != dead {
                    edges.insert((class[q], l));
                }
            }
        }
    }
    ((count - dead.is_some() as usize).max(1), edges.len())
}

fn metrics_cli(i: &Interaction, lfs: usize, mss: usize, k: usize, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(lfs, mss);
    w.dir.clear();
    std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
    std::fs::write(w.dir.file("i.hif"), n.hif(i)).unwrap();
    let g = gen_ctx(lfs, mss);
    let run = |kind: &str, t: &mut Tally| -> Result<mc::cli::Out, Failure> {
        t.bump("runs_of_the_tool");
        t.transitions += 1;
        t.validated += 1;
        let o = w.cli.run(&["get_metrics", "s.hsf", "i.hif", kind]);
        if o.panicked() {
            return Err(fail("panic", i, format!("{}: {}", kind, o.err)));
        }
        Ok(o)
    };
    let num = |o: &mc::cli::Out, key: &str| o.value(key).unwrap_or_default();
    let can = canonize_interaction(&g, i, DefaultCanonizationProcess::BasicWithUnfoldActions);
    let m = measured(&can);
    let o = run("INT", t)?;
    for (key, want) in [("depth", m.depth), ("loop depth", m.loop_depth), ("number of lifelines", m.lifelines.len() as u32), ("number of actions", m.n("action"))] {
        if num(&o, key) != want.to_string() {
            return Err(fail("INT", i, format!("{}: {} instead of {} for {}", key, num(&o, key), want, show(&can))));
        }
    }
    let alphabet = get_alphabet_from_gen_ctx(&g);
    let mut letters: BTreeSet<u8> = BTreeSet::new();
    for l in &alphabet {
        letters.insert(w.lx.id(l));
    }
    let loops = has_loop(i);
    let k = if loops { k } else { acts(i).min(7) };
    let lang = w.lx.lang(i, k);
    // synchronous communications are letters of their own
    for x in &lang {
        for l in w.lx.letters_of(*x) {
            letters.insert(w.lx.id(&l));
        }
    }
    let letters: Vec<u8> = letters.into_iter().collect();
    if !has_sync_op(i) && alphabet.len() == letters.len() {
        let (nfa, _) = get_nfa_from_interaction_exploration(&g, &can, alphabet.clone());
        let edges: usize = nfa.transitions.iter().map(|x| x.values().map(|y| y.len()).sum::<usize>()).sum();
        let o = run("operatNFA", t)?;
        if num(&o, "number of states") != nfa.transitions.len().to_string() || num(&o, "number of edges") != edges.to_string() {
            return Err(fail("operatNFA", i, format!("{} states and {} edges instead of {} and {}", num(&o, "number of states"), num(&o, "number of edges"), nfa.transitions.len(), edges)));
        }
    }
    if only_strict_loops(i) && alphabet.len() == letters.len() {
        let (states, edges) = if loops {
            let (nfa, _) = get_nfa_from_interaction_exploration(&g, &can, alphabet.clone());
            minimal_of(&nfa.initials, &nfa.finals, &nfa.transitions)
        } else {
            minimal(&lang, 2 * k, k, &letters)
        };
        let o = run("minDFA", t)?;
        t.bump("minimal automata");
        if num(&o, "number of states") != states.to_string() || num(&o, "number of edges") != edges.to_string() {
            return Err(fail("minDFA", i, format!("{} states and {} edges instead of {} and {}", num(&o, "number of states"), num(&o, "number of edges"), states, edges)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P01: PlantUML sequence diagrams

#[derive(Clone, Debug, PartialEq)]
enum D {
    Arrow(String, String, String),
    Group(String, Vec<Vec<D>>),
}

fn flat<'a>(i: &'a Interaction, same: &dyn Fn(&Interaction) -> bool, v: &mut Vec<&'a Interaction>) {
    match i {
        Interaction::Strict(a, b) | Interaction::Par(a, b) | Interaction::Alt(a, b) if same(i) => {
            flat(a, same, v);
            flat(b, same, v);
        }
        _ => v.push(i),
    }
}

/// the diagram an interaction denotes; None when it has no such diagram
fn diagram(i: &Interaction, n: &Names) -> Option<Vec<D>> {
    let group = |name: &str, same: &dyn Fn(&Interaction) -> bool| -> Option<Vec<D>> {
        let mut v = vec![];
        flat(i, same, &mut v);
        let mut br = vec![];
        for x in v {
            br.push(diagram(x, n)?);
        }
        Some(vec![D::Group(name.to_string(), br)])
    };
    match i {
        Interaction::Empty => Some(vec![]),
        Interaction::Reception(r) => {
            if r.recipients.len() != 1 {
                return None;
            }
            Some(vec![D::Arrow("".into(), n.lf[r.recipients[0]].clone(), n.ms[r.ms_id].clone())])
        }
        Interaction::Emission(e) => {
            let to = match e.targets.len() {
                0 => "".to_string(),
                1 => match &e.targets[0] {
                    EmissionTargetRef::Lifeline(l) => n.lf[*l].clone(),
                    EmissionTargetRef::Gate(_) => "]".to_string(),
                },
                _ => return None,
            };
            Some(vec![D::Arrow(n.lf[e.origin_lf_id].clone(), to, n.ms[e.ms_id].clone())])
        }
        Interaction::Seq(a, b) => {
            let mut v = diagram(a, n)?;
            v.extend(diagram(b, n)?);
            Some(v)
        }
        Interaction::Strict(..) => group("strict", &|x| matches!(x, Interaction::Strict(..))),
        Interaction::Par(..) => group("par", &|x| matches!(x, Interaction::Par(..))),
        Interaction::Alt(..) => group("alt", &|x| matches!(x, Interaction::Alt(..))),
        Interaction::Loop(k, a) => {
            let name = match k {
                LoopKind::SStrictSeq => "loopS",
                LoopKind::HHeadFirstWS => "loopH",
                LoopKind::WWeakSeq => "loopW",
                LoopKind::PInterleaving => "loopP",
            };
            Some(vec![D::Group(name.to_string(), vec![diagram(a, n)?])])
        }
        _ => None,
    }
}

fn read_branches(lines: &mut std::iter::Peekable<std::vec::IntoIter<String>>) -> Result<Vec<Vec<D>>, String> {
    let mut out = vec![vec![]];
    loop {
        let l = match lines.peek() {
            None => return Ok(out),
            Some(l) => l.clone(),
        };
        if l == "end" || l == "@enduml" {
            return Ok(out);
        }
        lines.next();
        if l == "else" {
            out.push(vec![]);
            continue;
        }
        let item = if l == "alt" || l.starts_with("group ") {
            let name = l.trim_start_matches("group ").trim().to_string();
            let b = read_branches(lines)?;
            if lines.next().as_deref() != Some("end") {
                return Err("group without end".into());
            }
            D::Group(name, b)
        } else {
            let (a, m) = l.split_once(':').ok_or(format!("line {}", l))?;
            let (from, to) = a.split_once("->").ok_or(format!("line {}", l))?;
            D::Arrow(from.trim().into(), to.trim().into(), m.trim().into())
        };
        out.last_mut().unwrap().push(item);
    }
}

fn read_puml(text: &str) -> Result<Vec<D>, String> {
    let v: Vec<String> = text.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('\'') && !l.starts_with("title")).collect();
    let mut it = v.into_iter().peekable();
    if it.next().as_deref() != Some("@startuml") {
        return Err("no start".into());
    }
    let b = read_branches(&mut it)?;
    if it.next().as_deref() != Some("@enduml") || it.next().is_some() {
        return Err("no end".into());
    }
    if b.len() != 1 {
        return Err("else outside of a group".into());
    }
    Ok(b.into_iter().next().unwrap())
}

fn puml(i: &Interaction, lfs: usize, mss: usize, cli: bool, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(lfs, mss);
    let want = match diagram(i, &n) {
        None => return Ok(()),
        Some(x) => x,
    };
    t.states += 1;
    let text = if cli {
        w.dir.clear();
        std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
        std::fs::write(w.dir.file("i.hif"), n.hif(i)).unwrap();
        t.bump("runs_of_the_tool");
        let o = w.cli.run(&["puml_sd", "s.hsf", "i.hif"]);
        if o.panicked() {
            return Err(fail("panic", i, o.err));
        }
        std::fs::read_to_string(w.dir.file("s_sd.puml")).map_err(|e| fail("file", i, e.to_string()))?
    } else {
        let f = w.dir.file("x.puml");
        guarded(|| to_plant_uml_sd(&f, "x", i, &gen_ctx(lfs, mss))).map_err(|p| fail("panic", i, p))?;
        std::fs::read_to_string(&f).unwrap()
    };
    t.validated += 1;
    t.transitions += text.lines().count() as u64;
    let got = read_puml(&text).map_err(|e| fail("malformed", i, format!("{}\n{}", e, text)))?;
    if got != want {
        return Err(fail("diagram", i, format!("{}\nmeans {:?}\ninstead of {:?}", text, got, want)));
    }
    Ok(())
}

fn ops_all() -> Vec<Op> {
    vec![Op::Strict, Op::Seq, Op::CoReg(vec![0]), Op::Alt, Op::Par, Op::Sync(vec![em(0, 0)])]
}

fn universe(id: &str, th: bool) -> Multi {
    let mut exotic = atoms_single(2, 1);
    exotic.extend(atoms_comm(2, 1, false));
    exotic.push(a_empty());
    exotic.push(a_em_gate(0, 0, 0));
    exotic.push(a_rc_gate(0, &[1], 0, false));
    exotic.push(a_rc(&[0, 1], 0, false));
    let mut ops = ops_all();
    if id == "P01" {
        ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par];
    }
    let mut parts = vec![
        Universe::new("1 leaf", 2, 1, exotic.clone(), 1, ops.clone(), 0, 2, false),
        Universe::new("2 leaves", 2, 1, exotic.clone(), 2, ops.clone(), 0, 1, false),
    ];
    match id {
        "G02" => {
            parts.push(Universe::new("3 leaves", 2, 1, if th { exotic.clone() } else { atoms_single(2, 1) }, 3, vec![Op::Strict, Op::Seq, Op::Alt, Op::Par], 0, if th { 1 } else { 0 }, true));
        }
        "G02api" => {
            parts.push(Universe::new("3 leaves", 2, 1, exotic.clone(), 3, { let mut o = ops.clone(); o.push(Op::And); o }, 0, 1, !th));
            if th {
                parts.push(Universe::new("4 leaves", 2, 1, vec![a_em(0, 0), a_comm(0, 0, &[1], false)], 4, ops.clone(), 0, 2, false));
            }
        }
        _ => {
            parts.push(Universe::new("3 leaves", 2, 1, exotic.clone(), 3, ops.clone(), 0, if th { 2 } else { 1 }, false));
            parts.push(Universe::new("4 leaves", 2, 1, vec![a_em(0, 0), a_rc(&[1], 0, false)], if th { 5 } else { 4 }, ops.clone(), 0, 1, false));
        }
    }
    Multi { parts }
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let make = || {
        let dir = Scratch::new();
        W { cli: Cli::new(&dir.dir), dir, lx: Lx::new() }
    };
    let q = Quiet::new();
    match id.as_str() {
        "G01" => {
            let grid = 20usize;
            let mut gens: Vec<Gen> = vec![];
            for p in 0..5 {
                let mut add = |lfs: usize, mss: usize, depth: u32, min: u32| {
                    for first in 0..grid as u64 {
                        for second in 0..(if depth == 0 { lfs.max(2) } else { grid }) as u64 {
                            gens.push(Gen { probas: p, lfs, mss, depth, min, first, second });
                        }
                    }
                };
                for (l, m) in [(1, 1), (2, 1), (2, 2), (3, 2)] {
                    add(l, m, 0, 0);
                    add(l, m, 1, 0);
                    add(l, m, 1, 3);
                }
                add(1, 1, 2, 0);
                add(1, 1, 2, 4);
                if th {
                    add(2, 1, 2, 0);
                }
            }
            let mut cli = vec![];
            for k in 0..3 {
                for seed in 0..(if th { 40 } else { 10 }) {
                    for (num, depth, min, tries, folder) in [(5, 3, 0, None, None), (3, 4, 6, None, Some("f/g")), (4, 2, 3, Some(7), Some("x")), (0, 2, 0, None, None), (20, 1, 0, Some(10), None)] {
                        cli.push((seed, k, num, depth, min, tries, folder));
                    }
                }
            }
            r.bounds = format!("{} generation settings with all random decisions (numbers in [0,1) on a grid of {}), terms of depth <= 2, 1 to 3 lifelines, 1 to 2 messages; {} runs of the command with consecutive seeds, each twice; all distributions over 4 symbols by quarters", gens.len(), grid, cli.len());
            let (ng, nc) = (gens.len() as u64, cli.len() as u64);
            r.sweep(nc + ng + 6, make, |idx, w, t| {
                t.items += 1;
                if idx < nc {
                    let (s, k, a, b, c, d, e) = cli[idx as usize];
                    return gen_cli(s, k, a, b, c, d, e, w, t);
                }
                let idx = idx - nc;
                if idx < ng {
                    let c = &gens[idx as usize];
                    if idx % 401 == 3 {
                        t.sample(|| format!("{:?}", c));
                    }
                    return generation(c, grid, t);
                }
                if idx - ng < 5 {
                    shares((idx - ng) as usize, t)
                } else {
                    distributions(t)
                }
            });
        }
        "G02" => {
            let u = universe("G02", th);
            let v = universe("G02api", th);
            r.bounds = format!("through the command: {}; through the library: {}", u.describe(), v.describe());
            let (n, m) = (u.size(), v.size());
            r.sweep(n + m, make, |idx, w, t| {
                let (uu, k, cli) = if idx < n { (&u, idx, true) } else { (&v, idx - n, false) };
                let (part, term) = uu.decode(k);
                let term = match term {
                    Some(x) => x,
                    None => return Ok(()),
                };
                t.items += 1;
                t.states += 1;
                if idx % 1009 == 5 {
                    t.sample(|| show(&term));
                }
                metrics_api(&term, t)?;
                if cli {
                    let u = &u.parts[part];
                    return metrics_cli(&term, u.lfs, u.mss, 8, w, t);
                }
                Ok(())
            });
        }
        "P01" => {
            let u = universe("P01", th);
            r.bounds = u.describe();
            let n = u.size();
            r.sweep(n, make, |idx, w, t| {
                let (part, term) = u.decode(idx);
                let term = match term {
                    Some(x) => x,
                    None => return Ok(()),
                };
                t.items += 1;
                if idx % 1009 == 5 {
                    t.sample(|| show(&term));
                }
                puml(&term, u.parts[part].lfs, u.parts[part].mss, idx % 97 == 0, w, t)
            });
        }
        _ => panic!("unknown property"),
    }
    drop(q);
    std::process::exit(r.finish());
}
