//! Checks of the graphs that processes draw: C03 (canonize), L01 (explore), L02 (analyze).
//! See /verif/DESIGN.md.
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::sync::{Arc, Mutex};

use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::manager::logger::AbstractProcessLogger;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;

use mc::cli::{Cli, Out, Quiet};
use mc::dot::*;
use mc::hif::{tree_of, Names};
use mc::lang::*;
use mc::report::*;
use mc::scratch::Scratch;
use mc::sd;
use mc::universe::*;

use hibou::core::colocalizations::CoLocalizations;
use hibou::core::execution::trace::multitrace::MultiTrace;
use hibou::core::language::eliminate_lf::eliminable::LifelineEliminable;
use hibou::process::ana::handling::local_analysis::perform_local_analysis;
use hibou::process::ana::param::anakind::AnalysisKind;
use hibou::core::execution::semantics::execute::execute_interaction;
use hibou::core::execution::semantics::frontier::{global_frontier, FrontierElement};
use hibou::core::general_context::GeneralContext;
use hibou::core::language::position::position::Position;
use hibou::core::language::syntax::action::EmissionTargetRef;
use hibou::core::language::syntax::interaction::Interaction;
use hibou::io::input::hcf::ana::interface::parse_hcf_file_for_ana;
use hibou::io::input::htf::interface::parse_htf_file;
use hibou::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
use hibou::process::ana::conf::{AnalysisConfig, AnalysisStaticLocalVerdictAnalysisProof};
use hibou::process::ana::context::AnalysisContext;
use hibou::process::ana::filter::elim::AnalysisFilterEliminationKind;
use hibou::process::ana::filter::filter::AnalysisFilterCriterion;
use hibou::process::ana::node::flags::MultiTraceAnalysisFlags;
use hibou::process::ana::node::node::AnalysisNodeKind;
use hibou::process::ana::param::param::AnalysisParameterization;
use hibou::process::ana::priorities::AnalysisPriorities;
use hibou::process::ana::step::{AnalysisStepKind, SimulationStepKind};
use hibou::process::ana::verdict::global::AnalysisGlobalVerdict;
use hibou::process::ana::verdict::local::AnalysisLocalVerdict;
use hibou::process::canon::param::default::DefaultCanonizationProcess;

type H = u64;

struct W {
    dir: Scratch,
    pics: Scratch,
    _stubs: Scratch,
    cli: Cli,
    lx: Lx,
    seen: HashMap<String, H>,
}

fn hash(b: &[u8]) -> H {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}

impl W {
    /// the picture drawn by `f`, remembered under `key`
    fn picture(&mut self, key: String, f: impl FnOnce(&Path)) -> H {
        if let Some(h) = self.seen.get(&key) {
            return *h;
        }
        let p = self.pics.dir.join("x.png");
        let _ = std::fs::remove_file(&p);
        f(&p);
        let h = hash(&std::fs::read(&p).unwrap_or_default());
        if self.seen.len() > 20000 {
            self.seen.clear();
        }
        self.seen.insert(key, h);
        h
    }

    fn diagram(&mut self, i: &Interaction, g: &GeneralContext) -> H {
        let dir = self.pics.dir.to_str().unwrap().to_string();
        self.picture(format!("sd {:?}", i), |_| {
            draw_interaction(g, i, &InteractionGraphicalRepresentation::AsSequenceDiagram, &dir, &dir, &"x".to_string());
        })
    }

    /// the picture of some text
    fn text(&mut self, lines: Vec<sd::Line>, centered: bool) -> H {
        self.picture(format!("text {} {:?}", centered, lines), |p| std::fs::write(p, sd::note(&lines, centered).png()).unwrap())
    }

    fn word(&mut self, s: &str) -> H {
        self.text(vec![vec![(s.to_string(), sd::BLACK)]], true)
    }
}

fn fail(key: &str, i: &Interaction, what: String) -> Failure {
    Failure { key: key.into(), detail: format!("interaction: {}\n{}", show(i), what) }
}

fn to_itself(i: &Interaction) -> bool {
    match i {
        Interaction::Emission(e) => e.targets.contains(&EmissionTargetRef::Lifeline(e.origin_lf_id)),
        Interaction::Loop(_, a) => to_itself(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => to_itself(a) || to_itself(b),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// what a drawn graph says

#[derive(Default, Debug, Clone)]
struct Drawn {
    /// picture of the interaction, its tree, picture of the multi-trace, colour
    sd: Option<H>,
    tree: Option<String>,
    mu: Option<H>,
    colour: Option<String>,
    /// picture of the step and where it leads
    steps: BTreeMap<(H, u32), u32>,
    filtered: Vec<String>,
    verdict: Option<String>,
    /// colours in which the verdict and what leads to it are drawn
    ink: BTreeSet<String>,
    stat: bool,
}

struct Graph {
    nodes: BTreeMap<u32, Drawn>,
    legend: Option<String>,
    verdict: Option<String>,
    rank: String,
}

const EMPTY: H = 0;

/// reads back the graph drawn in `name`; `tmp` is the folder of its pictures
fn read_graph(w: &W, name: &str, tmp: &str, ana: bool) -> Result<(Graph, String), String> {
    read_kept(w, name, tmp, tmp, ana)
}

/// the same when the pictures were put away in `kept`
fn read_kept(w: &W, name: &str, tmp: &str, kept: &str, ana: bool) -> Result<(Graph, String), String> {
    let text = std::fs::read_to_string(w.dir.file(name)).map_err(|e| format!("{}: {}", name, e))?;
    let g = graph_of(w, &text, tmp, kept, ana).map_err(|e| format!("{}\n{}", e, text))?;
    Ok((g, text))
}

fn graph_of(w: &W, text: &str, tmp: &str, kept: &str, ana: bool) -> Result<Graph, String> {
    let mut d = read_drawing(text)?;
    if !ana {
        // a rule may give the same result twice: a statement repeated to the letter says nothing new
        let mut items: Vec<Item> = vec![];
        for x in d.items {
            if !items.contains(&x) {
                items.push(x);
            }
        }
        d.items = items;
        let mut edges = vec![];
        for x in d.edges {
            if !edges.contains(&x) {
                edges.push(x);
            }
        }
        d.edges = edges;
    }
    let mut g = Graph { nodes: BTreeMap::new(), legend: None, verdict: None, rank: d.graph.get("rankdir").cloned().unwrap_or_default() };
    let number = |s: &str, p: &str| s.strip_prefix(p).and_then(|x| x.parse::<u32>().ok());
    let mut ids = BTreeSet::new();
    for x in &d.items {
        if !ids.insert(x.id.clone()) {
            return Err(format!("{} is drawn twice", x.id));
        }
    }
    // the picture a drawn item shows
    let shown = |x: &Item| -> Result<Option<H>, String> {
        match x.attrs.get("image") {
            None => Ok(None),
            Some(f) => {
                if *f != format!("{}/{}.png", tmp, x.id) {
                    return Err(format!("{} shows {}", x.id, f));
                }
                Ok(Some(hash(&std::fs::read(w.dir.file(&format!("{}/{}.png", kept, x.id))).map_err(|e| format!("{}: {}", f, e))?)))
            }
        }
    };
    let tree = |x: &Item| -> Result<Option<String>, String> {
        match x.attrs.get("image") {
            None => Ok(Some("o".into())),
            Some(f) => {
                if *f != format!("{}/{}.png", tmp, x.id) {
                    return Err(format!("{} shows {}", x.id, f));
                }
                let f = format!("temp/{}.dot", x.id);
                let t = std::fs::read_to_string(w.dir.file(&f)).map_err(|e| format!("{}: {}", f, e))?;
                Ok(Some(read_drawing(&t)?.tree().map_err(|e| format!("{}: {}\n{}", f, e, t))?))
            }
        }
    };
    let mut steps: BTreeMap<String, H> = BTreeMap::new();
    let mut anchors: BTreeMap<String, u32> = BTreeMap::new();
    for (c, a) in &d.clusters {
        if let Some(k) = number(c, "cluster_n") {
            g.nodes.entry(k).or_default().colour = a.get("fillcolor").cloned();
        } else if number(c, "cluster_stat").is_none() {
            return Err(format!("cluster {}", c));
        }
    }
    for x in &d.items {
        let home = |k: u32| -> Result<(), String> {
            if x.within != Some(format!("cluster_n{}", k)) {
                return Err(format!("{} is drawn in {:?}", x.id, x.within));
            }
            Ok(())
        };
        if x.id == "param" {
            g.legend = x.attrs.get("label").cloned();
        } else if x.id == "verdict" {
            g.verdict = x.attrs.get("label").cloned();
        } else if let Some(k) = number(&x.id, "isd") {
            home(k)?;
            g.nodes.entry(k).or_default().sd = Some(shown(x)?.unwrap_or(EMPTY));
        } else if let Some(k) = number(&x.id, "itt") {
            home(k)?;
            g.nodes.entry(k).or_default().tree = tree(x)?;
        } else if let Some(k) = number(&x.id, "mu") {
            home(k)?;
            g.nodes.entry(k).or_default().mu = Some(shown(x)?.unwrap_or(EMPTY));
        } else if let Some(k) = number(&x.id, "n") {
            let n = g.nodes.entry(k).or_default();
            anchors.insert(x.id.clone(), k);
            if x.within.is_some() || d.clusters.contains_key(&format!("cluster_n{}", k)) {
                return Err(format!("node {} is drawn in several ways", k));
            }
            if ana {
                n.mu = Some(shown(x)?.unwrap_or(EMPTY));
            } else if x.attrs.contains_key("image") && w.dir.dir.join(format!("{}/{}.png", tmp, x.id)).is_file() {
                n.sd = shown(x)?;
            } else if x.attrs.contains_key("image") {
                n.tree = tree(x)?;
            }
        } else if let Some(k) = number(&x.id, "a") {
            home(k)?;
            anchors.insert(x.id.clone(), k);
        } else if x.id.starts_with("s_") {
            steps.insert(x.id.clone(), shown(x)?.ok_or(format!("step {} shows nothing", x.id))?);
        }
    }
    let mut from: BTreeMap<String, u32> = BTreeMap::new();
    let mut to: BTreeMap<String, u32> = BTreeMap::new();
    for (a, b, at) in &d.edges {
        for (end, attr) in [(a, "ltail"), (b, "lhead")] {
            if let (Some(c), Some(k)) = (at.get(attr), anchors.get(end)) {
                if *c != format!("cluster_n{}", k) {
                    return Err(format!("edge {} -> {} with {} {}", a, b, attr, c));
                }
            }
        }
        let item = |x: &str| d.item(x).ok_or(format!("{} is not drawn", x));
        if steps.contains_key(b) {
            let k = *anchors.get(a).ok_or(format!("edge from {}", a))?;
            if from.insert(b.clone(), k).is_some() {
                return Err(format!("step {} drawn once for several", b));
            }
        } else if steps.contains_key(a) {
            let k = *anchors.get(b).ok_or(format!("edge to {}", b))?;
            if to.insert(a.clone(), k).is_some() {
                return Err(format!("step {} drawn once for several", a));
            }
        } else if let Some(k) = anchors.get(a) {
            let n = g.nodes.get_mut(k).unwrap();
            if number(b, "v").is_some() {
                if *b != format!("v{}", k) || n.verdict.is_some() {
                    return Err(format!("verdict {} at {}", b, a));
                }
                n.verdict = item(b)?.attrs.get("label").cloned();
                n.ink.extend(item(b)?.attrs.get("color").cloned());
                n.ink.extend(at.get("color").cloned());
            } else if number(b, "e").is_some() {
                n.filtered.push(item(b)?.attrs.get("label").cloned().unwrap_or_default());
            } else if *b == format!("stat_anchor{}", k) {
                let x = item(b)?;
                if x.within != Some(format!("cluster_stat{}", k)) || x.attrs.get("image") != Some(&format!("./stat{}.png", k)) {
                    return Err(format!("local analysis {}", b));
                }
                n.stat = true;
                n.ink.extend(at.get("color").cloned());
                n.ink.extend(d.clusters.get(&format!("cluster_stat{}", k)).and_then(|c| c.get("color").cloned()));
            } else {
                return Err(format!("edge {} -> {}", a, b));
            }
        } else if let Some(k) = number(a, "stat_anchor") {
            let n = g.nodes.get_mut(&k).ok_or(format!("local analysis of {}", k))?;
            if *b != format!("v{}", k) || n.verdict.is_some() {
                return Err(format!("verdict {} at {}", b, a));
            }
            n.verdict = item(b)?.attrs.get("label").cloned();
            n.ink.extend(item(b)?.attrs.get("color").cloned());
            n.ink.extend(at.get("color").cloned());
        } else {
            return Err(format!("edge {} -> {}", a, b));
        }
    }
    for (s, h) in &steps {
        let (a, b) = (from.get(s).ok_or(format!("step {} from nowhere", s))?, to.get(s).ok_or(format!("step {} to nowhere", s))?);
        *g.nodes.get_mut(a).unwrap().steps.entry((*h, *b)).or_insert(0) += 1;
    }
    let drawn = d.items.iter().filter(|x| number(&x.id, "v").is_some()).count();
    if drawn != g.nodes.values().filter(|n| n.verdict.is_some()).count() {
        return Err("verdicts of no node".into());
    }
    let drawn = d.items.iter().filter(|x| number(&x.id, "e").is_some()).count();
    if drawn != g.nodes.values().map(|n| n.filtered.len()).sum::<usize>() {
        return Err("filtered steps of no node".into());
    }
    Ok(g)
}

/// does the node show this interaction?
fn shows(w: &mut W, d: &Drawn, i: &Interaction, g: &GeneralContext, n: &Names) -> Result<(), String> {
    if let Some(h) = d.sd {
        let want = if *i == Interaction::Empty { EMPTY } else { w.diagram(i, g) };
        if h != want {
            return Err(format!("the sequence diagram shown is not that of {}", show(i)));
        }
    }
    if let Some(t) = &d.tree {
        let want = tree_of(i, n);
        if *t != want {
            return Err(format!("the tree shown is {}, that of the interaction is {}", t, want));
        }
    }
    Ok(())
}

fn count_printed(o: &Out) -> Option<usize> {
    o.value("node count").and_then(|x| x.parse().ok())
}

// ---------------------------------------------------------------------------------------------
// C03: canonize

fn at<'a>(i: &'a Interaction, p: &Position) -> Option<&'a Interaction> {
    match p {
        Position::Epsilon(_) => Some(i),
        Position::Left(q) => match i {
            Interaction::Strict(a, _) | Interaction::Seq(a, _) | Interaction::CoReg(_, a, _) | Interaction::Alt(a, _)
            | Interaction::Par(a, _) | Interaction::And(a, _) | Interaction::Sync(_, a, _) | Interaction::Loop(_, a) => at(a, q),
            _ => None,
        },
        Position::Right(q) => match i {
            Interaction::Strict(_, a) | Interaction::Seq(_, a) | Interaction::CoReg(_, _, a) | Interaction::Alt(_, a)
            | Interaction::Par(_, a) | Interaction::And(_, a) | Interaction::Sync(_, _, a) => at(a, q),
            _ => None,
        },
        _ => None,
    }
}

fn op(i: Option<&Interaction>) -> &'static str {
    match i {
        Some(Interaction::Strict(..)) => "strict",
        Some(Interaction::Seq(..)) => "seq",
        Some(Interaction::Alt(..)) => "alt",
        Some(Interaction::Par(..)) => "par",
        Some(Interaction::CoReg(..)) => "coreg",
        Some(Interaction::Loop(..)) => "loop",
        _ => "other",
    }
}

/// the operators a rule turns into one another, for the rules whose name says it
fn named_for(rule: &str, before: &str, after: &str) -> bool {
    match rule {
        "FactorizePrefixStrict" | "FactorizeSuffixStrict" => before == "alt" && (after == "strict" || after == "alt"),
        "FactorizePrefixSeq" | "FactorizeSuffixSeq" => before == "alt" && (after == "seq" || after == "alt"),
        "FactorizeCommutativePar" => before == "alt" && (after == "par" || after == "alt"),
        "InvertAlt" => before == "alt" && after == "alt",
        "InvertPar" => before == "par" && after == "par",
        "StrictToSeq" => before == "strict" && after == "seq",
        "ParToSeq" => before == "par" && after == "seq",
        "LoopSimpl" | "LoopUnNest" => before == "loop",
        _ => true,
    }
}

fn canonize(i: &Interaction, lfs: usize, mss: usize, all: bool, k: usize, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(lfs, mss);
    let gc = gen_ctx(lfs, mss);
    // the rewriting graph
    let phases = DefaultCanonizationProcess::FivePhases.get_phases();
    let mut nodes: Vec<(Interaction, usize)> = vec![(i.clone(), 0)];
    let mut index: HashMap<(Interaction, usize), usize> = HashMap::from([((i.clone(), 0), 0)]);
    let mut succ: Vec<BTreeMap<(H, usize), ()>> = vec![];
    let mut done = 0;
    while done < nodes.len() {
        let (x, ph) = nodes[done].clone();
        let mut out = BTreeMap::new();
        if ph < phases.len() {
            let r = phases[ph].get_transfos(&x, all);
            let next: Vec<(H, (Interaction, usize))> = if r.is_empty() {
                vec![(w.word("go to next phase"), (x.clone(), ph + 1))]
            } else {
                let mut v = vec![];
                for y in r {
                    let rule = y.kind.to_string();
                    let (b, a) = (op(at(&x, &y.position)), op(at(&y.result, &y.position)));
                    if !named_for(&rule, b, a) {
                        return Err(fail("rule", &x, format!("{} at {} gives {}", rule, y.position, show(&y.result))));
                    }
                    let h = w.text(vec![sd::step(vec![(rule, sd::BLACK)], &y.position)], true);
                    v.push((h, (y.result, ph)));
                }
                v
            };
            for (h, y) in next {
                let id = *index.entry(y.clone()).or_insert_with(|| {
                    nodes.push(y);
                    nodes.len() - 1
                });
                out.insert((h, id), ());
            }
        }
        succ.push(out);
        done += 1;
        if nodes.len() > 3000 {
            t.bump("too_large");
            return Ok(());
        }
    }
    t.states += nodes.len() as u64;
    t.transitions += succ.iter().map(|x| x.len() as u64).sum::<u64>();
    let l = w.lx.lang(i, k);
    for (y, _) in &nodes {
        if w.lx.lang(y, k) != l {
            return Err(fail("language", i, format!("is rewritten into {}", show(y))));
        }
    }
    // the command
    w.dir.clear();
    std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
    std::fs::write(w.dir.file("j.hif"), n.hif(i)).unwrap();
    let conf = format!("@canonize_option{{loggers=[graphic[svg,draw_sd=true,draw_tt=true]];search_all={}}}", all);
    std::fs::write(w.dir.file("c.hcf"), conf).unwrap();
    t.bump("runs_of_the_tool");
    let o = w.cli.run(&["canonize", "s.hsf", "j.hif", "c.hcf"]);
    if o.panicked() {
        return Err(fail("panic", i, o.err));
    }
    if count_printed(&o) != Some(nodes.len()) {
        return Err(fail("count", i, format!("{} distinct interactions and phases are reached\n{}", nodes.len(), o.text)));
    }
    let (g, text) = read_graph(w, "c_l1.dot", "graphviz_temp_l1", false).map_err(|e| fail("graph", i, e))?;
    t.validated += 1;
    let bad = |what: String| fail("graph", i, format!("{}\n{}", what, text));
    if g.nodes.len() != nodes.len() {
        return Err(bad(format!("{} nodes drawn, {} reached", g.nodes.len(), nodes.len())));
    }
    if !g.legend.as_deref().unwrap_or("").contains(&format!("get_all_transformations = {}", all)) {
        return Err(bad(format!("legend {:?}", g.legend)));
    }
    // side by side, from the first node
    let mut pair: BTreeMap<u32, usize> = BTreeMap::from([(1, 0)]);
    let mut todo = vec![1u32];
    let colours = ["lightskyblue", "lightgoldenrod1", "seagreen1", "lightsalmon"];
    while let Some(x) = todo.pop() {
        let m = pair[&x];
        let d = match g.nodes.get(&x) {
            Some(d) => d.clone(),
            None => return Err(bad(format!("node {} is not drawn", x))),
        };
        shows(w, &d, &nodes[m].0, &gc, &n).map_err(|e| bad(format!("node {}: {}", x, e)))?;
        if d.sd.is_none() || d.tree.is_none() {
            return Err(bad(format!("node {} does not show its interaction", x)));
        }
        if d.colour.as_deref() != Some(colours[nodes[m].1 % 4]) {
            return Err(bad(format!("node {} is in phase {} and drawn in {:?}", x, nodes[m].1, d.colour)));
        }
        if d.verdict.is_some() != succ[m].is_empty() || !d.filtered.is_empty() {
            return Err(bad(format!("node {}: verdict {:?}, filtered {:?}", x, d.verdict, d.filtered)));
        }
        // a drawn step and the step it stands for have the same picture and lead to the same term
        let mut rest: BTreeSet<(H, usize)> = succ[m].keys().cloned().collect();
        for (h, y) in d.steps.keys() {
            let tree = g.nodes.get(y).and_then(|z| z.tree.clone()).unwrap_or_default();
            let found = rest.iter().find(|(a, b)| a == h && tree_of(&nodes[*b].0, &n) == tree).cloned();
            match found {
                None => return Err(bad(format!("step from {} to {} stands for no rewriting of {}", x, y, show(&nodes[m].0)))),
                Some(f) => {
                    rest.remove(&f);
                    match pair.get(y) {
                        Some(z) if *z != f.1 => return Err(bad(format!("node {} stands for {} and {}", y, show(&nodes[*z].0), show(&nodes[f.1].0)))),
                        Some(_) => (),
                        None => {
                            pair.insert(*y, f.1);
                            todo.push(*y);
                        }
                    }
                }
            }
        }
        if let Some((_, z)) = rest.iter().next() {
            return Err(bad(format!("the rewriting of node {} = {} into {} is not drawn", x, show(&nodes[m].0), show(&nodes[*z].0))));
        }
    }
    if pair.len() != nodes.len() || pair.values().collect::<BTreeSet<_>>().len() != nodes.len() {
        return Err(bad("some node cannot be reached".into()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// L01: explore

#[derive(Clone, Debug)]
struct Conf {
    name: &'static str,
    text: &'static str,
    sd: bool,
    tt: bool,
    legend: bool,
    file: &'static str,
    rank: &'static str,
    memo: bool,
    filter: Option<(&'static str, u32)>,
    loops: bool,
    every: u64,
}

fn confs() -> Vec<Conf> {
    let c = |name, text, sd, tt, legend, file, rank, memo, filter, loops, every| Conf { name, text, sd, tt, legend, file, rank, memo, filter, loops, every };
    vec![
        c("tree", "loggers=[graphic[svg,vertical,draw_sd=true,draw_tt=true]]; memoize=false", true, true, true, "c_l1.dot", "tb", false, None, false, 1),
        c("memo", "loggers=[graphic[png,horizontal,draw_sd=false,draw_tt=true,draw_legend=false,name=nam,folder=fold]]; memoize=true; strategy=DFS", false, true, false, "fold/nam.dot", "lr", true, None, false, 1),
        c("default", "loggers=[graphic]; memoize=true; filters=[max_depth=2]; strategy=HCS", true, false, true, "c_l1.dot", "tb", true, Some(("MaxDepth", 2)), true, 1),
        c("number", "loggers=[tracegen[generation=accepted],graphic[draw_sd=false]]; filters=[max_node_number=3]; strategy=BFS; memoize=false", false, false, true, "c_l2.dot", "tb", false, Some(("MaxNum", 3)), true, 3),
        c("loop", "loggers=[graphic[draw_tt=true]]; filters=[max_loop_depth=1]; memoize=false", true, true, true, "c_l1.dot", "tb", false, Some(("MaxLoop", 1)), true, 2),
    ]
}

fn explore(i: &Interaction, lfs: usize, mss: usize, c: &Conf, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(lfs, mss);
    let gc = gen_ctx(lfs, mss);
    w.dir.clear();
    std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
    std::fs::write(w.dir.file("j.hif"), n.hif(i)).unwrap();
    std::fs::write(w.dir.file("c.hcf"), format!("@explore_option{{{}}}", c.text)).unwrap();
    t.bump("runs_of_the_tool");
    let o = w.cli.run(&["explore", "s.hsf", "j.hif", "c.hcf"]);
    let bad0 = |what: String| fail(c.name, i, format!("configuration {}\n{}", c.text, what));
    if o.panicked() {
        return Err(bad0(o.err));
    }
    let tmp = if c.file == "c_l2.dot" { "graphviz_temp_l2" } else { "graphviz_temp_l1" };
    let (g, text) = read_graph(w, c.file, tmp, false).map_err(|e| bad0(e))?;
    t.validated += 1;
    let bad = |what: String| bad0(format!("{}\n{}", what, text));
    if g.rank != c.rank || g.legend.is_some() != c.legend || g.verdict.is_some() != c.legend {
        return Err(bad(format!("direction {}, legend {:?}, verdict {:?}", g.rank, g.legend, g.verdict)));
    }
    if let Some(l) = &g.legend {
        let memo = format!("memoize={}", c.memo);
        let flt = c.filter.map(|(f, x)| (f, x.to_string()));
        if !l.contains(&memo) || flt.map_or(false, |(f, x)| !l.contains(f) || !l.contains(&x)) {
            return Err(bad(format!("legend {:?}", l)));
        }
    }
    if count_printed(&o) != Some(g.nodes.len()) {
        return Err(bad(format!("{} nodes drawn\n{}", g.nodes.len(), o.text)));
    }
    let mut pair: BTreeMap<u32, (Interaction, usize)> = BTreeMap::from([(1, (i.clone(), 0))]);
    let mut todo = vec![1u32];
    let mut dead = false;
    let mut seen: HashSet<Interaction> = HashSet::new();
    while let Some(x) = todo.pop() {
        let (y, depth) = pair[&x].clone();
        t.states += 1;
        let d = match g.nodes.get(&x) {
            Some(d) => d.clone(),
            None => return Err(bad(format!("node {} is not drawn", x))),
        };
        shows(w, &d, &y, &gc, &n).map_err(|e| bad(format!("node {}: {}", x, e)))?;
        if y != Interaction::Empty && (d.sd.is_some() != c.sd || d.tree.is_some() != c.tt) {
            return Err(bad(format!("node {} shows {:?} and {:?}", x, d.sd, d.tree)));
        }
        if c.memo && !has_loop(i) && !seen.insert(y.clone()) {
            return Err(bad(format!("{} is drawn twice", show(&y))));
        }
        let frt: Vec<FrontierElement> = global_frontier(&y, true);
        let accepting = w.lx.lang(&y, 0).len() == 1;
        let want = if accepting { Some("Accepting") } else if frt.is_empty() { Some("DeadLocked") } else { None };
        dead |= want == Some("DeadLocked");
        if d.verdict.as_deref() != want {
            return Err(bad(format!("node {} = {}: verdict {:?}, {:?} expected", x, show(&y), d.verdict, want)));
        }
        let mut rest: BTreeMap<H, Interaction> = BTreeMap::new();
        for f in &frt {
            let h = w.text(vec![sd::step(sd::executed(&f.target_actions, &n), &f.position)], true);
            let z = execute_interaction(&y, &f.position, &f.target_lf_ids, false).interaction;
            if let Some(a) = rest.insert(h, z.clone()) {
                if a != z {
                    return Err(bad(format!("steps from {} into {} and {} look the same", show(&y), show(&a), show(&z))));
                }
            }
        }
        let all = rest.len();
        for ((h, z), times) in &d.steps {
            t.transitions += 1;
            let to = match rest.remove(h) {
                Some(a) if *times == 1 => a,
                _ => return Err(bad(format!("step from {} to {} is not one of {}, or drawn twice", x, z, show(&y)))),
            };
            match pair.get(z) {
                Some((a, _)) if *a != to => return Err(bad(format!("node {} stands for {} and {}", z, show(a), show(&to)))),
                Some((_, e)) if !c.memo => return Err(bad(format!("node {} is reached twice, at depth {}", z, e))),
                Some((_, e)) => {
                    if depth + 1 < *e {
                        pair.insert(*z, (to, depth + 1));
                    }
                }
                None => {
                    pair.insert(*z, (to, depth + 1));
                    todo.push(*z);
                }
            }
        }
        match c.filter {
            None => {
                if !rest.is_empty() || !d.filtered.is_empty() {
                    return Err(bad(format!("{} of {} steps of node {} = {} are not drawn, filtered {:?}", rest.len(), all, x, show(&y), d.filtered)));
                }
            }
            Some((f, max)) => {
                if d.steps.len() + d.filtered.len() != frt.len() || !d.filtered.iter().all(|l| l.starts_with(f)) {
                    return Err(bad(format!("node {} = {} has {} steps, {} drawn and filtered {:?}", x, show(&y), frt.len(), d.steps.len(), d.filtered)));
                }
                if f == "MaxDepth" && !c.memo && (depth < max as usize) != d.filtered.is_empty() && !frt.is_empty() {
                    return Err(bad(format!("node {} at depth {}: filtered {:?}", x, depth, d.filtered)));
                }
            }
        }
    }
    if pair.len() != g.nodes.len() {
        return Err(bad("some node cannot be reached".into()));
    }
    if let Some(v) = &g.verdict {
        if dead != v.contains("HasDeadLocks") && c.filter.is_none() {
            return Err(bad(format!("deadlocks drawn: {}, verdict {}", dead, v)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// L02: analyze

#[derive(Default)]
struct Log {
    nodes: BTreeMap<u32, (Interaction, MultiTraceAnalysisFlags)>,
    steps: Vec<(u32, u32, Step)>,
    verdicts: BTreeMap<u32, (String, bool)>,
    filtered: BTreeMap<u32, Vec<String>>,
    proofs: BTreeMap<u32, Proof>,
}

/// what a local analysis is about
struct Proof {
    places: Vec<BTreeSet<usize>>,
    interaction: Interaction,
    flags: MultiTraceAnalysisFlags,
    traces: MultiTrace,
}

enum Step {
    /// the co-localizations no longer observed: all of their lifelines are eliminated
    Hide(BTreeSet<usize>),
    Fire(FrontierElement, HashSet<usize>, HashMap<usize, SimulationStepKind>),
}

struct Rec(Arc<Mutex<Log>>);

impl AbstractProcessLogger<AnalysisConfig> for Rec {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn log_initialize(&mut self) {}
    fn log_parameterization(&mut self, _: &QueueSearchStrategy, _: &GenericProcessPriorities<AnalysisPriorities>,
                            _: &[Box<dyn AbstractFilter<AnalysisFilterCriterion, AnalysisFilterEliminationKind>>],
                            _: &Option<AnalysisGlobalVerdict>, _: bool, _: &AnalysisParameterization) {}
    fn log_filtered(&mut self, _: &AnalysisContext, p: u32, _: u32, e: &AnalysisFilterEliminationKind) {
        self.0.lock().unwrap().filtered.entry(p).or_default().push(e.to_string());
    }
    fn log_new_node(&mut self, _: &AnalysisContext, _: &AnalysisParameterization, id: u32, n: &AnalysisNodeKind) {
        self.0.lock().unwrap().nodes.insert(id, (n.interaction.clone(), n.flags.clone()));
    }
    fn log_new_step(&mut self, _: &AnalysisContext, _: &AnalysisParameterization, o: u32, tgt: u32, s: &AnalysisStepKind, _: &AnalysisNodeKind, _: u32) {
        let s = match s {
            AnalysisStepKind::EliminateNoLongerObserved(l) => Step::Hide(l.iter().cloned().collect()),
            AnalysisStepKind::Execute(f, c, m) => Step::Fire(f.clone(), c.clone(), m.clone()),
        };
        self.0.lock().unwrap().steps.push((o, tgt, s));
    }
    fn log_verdict_on_no_child(&mut self, _: &AnalysisContext, _: &AnalysisParameterization, id: u32, v: &AnalysisLocalVerdict) {
        self.0.lock().unwrap().verdicts.insert(id, (v.to_string(), false));
    }
    fn log_verdict_on_static_analysis(&mut self, _: &AnalysisContext, _: &AnalysisParameterization, id: u32, v: &AnalysisLocalVerdict, p: &AnalysisStaticLocalVerdictAnalysisProof) {
        let mut l = self.0.lock().unwrap();
        l.verdicts.insert(id, (v.to_string(), true));
        l.proofs.insert(id, Proof {
            places: p.local_coloc.locs_lf_ids.iter().map(|l| l.iter().cloned().collect()).collect(),
            interaction: p.local_interaction.clone(),
            flags: p.local_flags.clone(),
            traces: p.local_multi_trace.clone(),
        });
    }
    fn log_terminate(&mut self, _: &AnalysisGlobalVerdict) {}
    fn log_notify_terminal_node_reached(&mut self, _: &AnalysisContext, _: u32) {}
    fn log_notify_last_child_of_node_processed(&mut self, _: &AnalysisContext, _: u32) {}
}

struct AConf {
    name: &'static str,
    text: &'static str,
    logger: &'static str,
    sd: bool,
    tt: bool,
}

fn aconfs() -> Vec<AConf> {
    let c = |name, text, logger, sd, tt| AConf { name, text, logger, sd, tt };
    vec![
        c("accept", "analysis_kind=accept; memoize=true; local_analysis=none", "graphic[svg,draw_sd=false,draw_tt=true]", false, true),
        c("prefix", "analysis_kind=prefix; memoize=false; local_analysis=[select=all,modulo=1]", "graphic[draw_legend=false]", true, false),
        c("eliminate", "analysis_kind=eliminate; memoize=true; partial_order_reduction=true; local_analysis=none", "graphic[svg,draw_sd=true,draw_tt=true]", true, true),
        c("simulate", "analysis_kind=simulate[loop num=2,act num=1]; memoize=true; local_analysis=[select=all]", "graphic[svg,draw_sd=false,draw_tt=false]", false, false),
        c("filtered", "analysis_kind=simulate[before=true,loop num=1,act num=2]; memoize=false; local_analysis=[select=all]; filters=[max_depth=2]; strategy=BFS", "graphic[svg,draw_sd=true,draw_tt=false]", true, false),
    ]
}

fn analyze(i: &Interaction, lfs: usize, mss: usize, comps: &[(Vec<usize>, Vec<Letter>)], c: &AConf, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(lfs, mss);
    w.dir.clear();
    let htf = n.htf(comps);
    std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
    std::fs::write(w.dir.file("j.hif"), n.hif(i)).unwrap();
    std::fs::write(w.dir.file("t.htf"), &htf).unwrap();
    std::fs::write(w.dir.file("c.hcf"), format!("@analyze_option{{loggers=[{}];{}}}", c.logger, c.text)).unwrap();
    std::fs::write(w.dir.file("d.hcf"), format!("@analyze_option{{{}}}", c.text)).unwrap();
    let bad0 = |what: String| fail(c.name, i, format!("multi-trace: {}\nconfiguration: {} {}\n{}", htf, c.text, c.logger, what));
    // the process, watched
    let ctx = gen_ctx(lfs, mss);
    let gc = gen_ctx(lfs, mss);
    let path = w.dir.file("d.hcf");
    let opts = parse_hcf_file_for_ana(&ctx, &path).map_err(|e| bad0(e.to_string()))?;
    let (cl, mu) = parse_htf_file(&ctx, &w.dir.file("t.htf")).map_err(|e| bad0(e.to_string()))?;
    let len: usize = comps.iter().map(|x| x.1.len()).sum();
    let (is_sim, cl_loop, cl_act) = opts.ana_param.ana_kind.get_sim_crits();
    let locana = opts.ana_param.locana.is_some();
    let depth = opts.ana_param.locana.as_ref().and_then(|l| l.max_look_ahead_depth);
    let kind = opts.ana_param.ana_kind.clone();
    let before = matches!(&kind, AnalysisKind::Simulate(s) if s.sim_before);
    let actx = AnalysisContext::new(ctx, cl.clone(), mu.clone(), len);
    let flags = match opts.ana_param.ana_kind.get_sim_config() {
        None => MultiTraceAnalysisFlags::new_init(cl.num_colocs(), 0, 0),
        Some(s) => MultiTraceAnalysisFlags::new_init(cl.num_colocs(), s.get_reset_rem_loop(len, i), s.get_reset_rem_act(len, i)),
    };
    let log = Arc::new(Mutex::new(Log::default()));
    let delegate: GenericProcessDelegate<AnalysisStepKind, AnalysisNodeKind, AnalysisPriorities> = GenericProcessDelegate::new(opts.strategy, opts.priorities);
    let mut m: GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(actx, opts.ana_param, delegate, opts.filters, vec![Box::new(Rec(log.clone()))], opts.goal, opts.use_memoization);
    let (count, verdict) = m.start_process(AnalysisNodeKind::new(i.clone(), flags, 0));
    drop(m);
    let log = std::mem::take(&mut *log.lock().unwrap());
    // the command
    t.bump("runs_of_the_tool");
    let o = w.cli.run(&["analyze", "s.hsf", "j.hif", "t.htf", "c.hcf"]);
    if o.panicked() {
        return Err(bad0(o.err));
    }
    if count_printed(&o) != Some(count as usize) || o.value("verdict") != Some(verdict.to_string()) {
        return Err(bad0(format!("{} nodes and verdict {} expected\n{}", count, verdict, o.text)));
    }
    let (g, text) = read_graph(w, "c_l1.dot", "graphviz_temp_l1", true).map_err(|e| bad0(e))?;
    t.validated += 1;
    let bad = |what: String| bad0(format!("{}\n{}", what, text));
    if g.nodes.keys().collect::<Vec<_>>() != log.nodes.keys().collect::<Vec<_>>() || g.nodes.len() != count as usize {
        return Err(bad(format!("{} nodes drawn, {} analyzed", g.nodes.len(), count)));
    }
    let legend = !c.logger.contains("legend=false");
    if g.legend.is_some() != legend || g.verdict.is_some() != legend || legend && g.verdict != Some(format!("verdict={}", verdict)) {
        return Err(bad(format!("legend {:?} and verdict {:?}", g.legend, g.verdict)));
    }
    let places: Vec<BTreeSet<usize>> = cl.locs_lf_ids.iter().map(|l| l.iter().cloned().collect()).collect();
    let budget = (is_sim, cl_loop, cl_act);
    agree(&g, &log, &places, &mu, budget, c, &gc, &n, w, t).map_err(|e| bad(e))?;
    if log.proofs.len() > 0 && !locana {
        return Err(bad("local analysis drawn".into()));
    }
    for (x, p) in &log.proofs {
        let within = |e: String| bad(format!("local analysis of node {}: {}", x, e));
        // it is about one component of the node
        let k = places.iter().position(|l| p.places == vec![l.clone()]).ok_or_else(|| within(format!("on {:?}", p.places)))?;
        let (y, fl) = &log.nodes[x];
        let gone: BTreeSet<usize> = (0..lfs).filter(|l| !places[k].contains(l)).collect();
        let local = y.eliminate_lifelines(&gone.iter().cloned().collect());
        let (f, f0) = (&p.flags.canals, &fl.canals[k]);
        if p.interaction != local || p.traces != vec![mu[k].clone()] || f.len() != 1 || f[0].consumed != f0.consumed || f[0].simulated_before != f0.simulated_before
            || f[0].simulated_after != f0.simulated_after || p.flags.rem_loop_in_sim != fl.rem_loop_in_sim || p.flags.rem_act_in_sim != fl.rem_act_in_sim {
            return Err(within(format!("of {} on {:?} with {:?}, from {} with {:?}", show(&p.interaction), p.traces, p.flags, show(y), fl)));
        }
        let again = Arc::new(Mutex::new(Log::default()));
        perform_local_analysis(&gc, CoLocalizations::new(vec![cl.locs_lf_ids[k].clone()]), &kind, false, &depth, local, vec![mu[k].clone()], p.flags.clone(), vec![Box::new(Rec(again.clone()))]);
        let again = std::mem::take(&mut *again.lock().unwrap());
        let (g, text) = read_kept(w, &format!("stat{}.dot", x), "./temp", &format!("kept_stat{}", x), true).map_err(|e| within(e))?;
        let within = |e: String| within(format!("{}\n{}", e, text));
        if g.legend.is_some() || g.verdict.is_some() {
            return Err(within("with a legend".into()));
        }
        agree(&g, &again, &p.places, &p.traces, if before { budget } else { (false, false, false) }, c, &gc, &n, w, t).map_err(within)?;
        t.bump("local_analyses_drawn");
    }
    Ok(())
}

/// the colour of a local verdict
fn colour(v: &str) -> &'static str {
    match v.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("") {
        "Cov" => "blue3",
        "TooShort" => "cyan3",
        "MultiPref" => "slateblue3",
        "Slice" => "darkorchid3",
        "Inconc" => "deeppink3",
        "Out" => "red3",
        "OutSim" => "crimson",
        _ => "",
    }
}

/// is the graph drawn that of the analysis watched?
fn agree(g: &Graph, log: &Log, places: &[BTreeSet<usize>], mu: &MultiTrace, budget: (bool, bool, bool), c: &AConf, gc: &GeneralContext, n: &Names, w: &mut W, t: &mut Tally) -> Result<(), String> {
    let bad = |e: String| e;
    if g.nodes.keys().collect::<Vec<_>>() != log.nodes.keys().collect::<Vec<_>>() {
        return Err(bad(format!("{} nodes drawn, {} analyzed", g.nodes.len(), log.nodes.len())));
    }
    let mut want: BTreeMap<u32, BTreeMap<(H, u32), u32>> = BTreeMap::new();
    for (a, b, s) in &log.steps {
        t.transitions += 1;
        let h = match s {
            Step::Hide(l) => w.text(vec![sd::eliminated(&l.iter().flat_map(|x| places[*x].iter().cloned()).collect(), n)], true),
            Step::Fire(f, x, y) => {
                let to = |k: &SimulationStepKind| if matches!(k, SimulationStepKind::BeforeStart) { "↑" } else { "↓" };
                let (xs, ys): (BTreeSet<_>, BTreeMap<_, _>) = (x.iter().cloned().collect(), y.iter().map(|(k, v)| (*k, to(v))).collect());
                let mut lines: Vec<sd::Line> = sd::consumed(places, &xs, &ys, n).into_iter().collect();
                lines.push(sd::step(sd::executed(&f.target_actions, n), &f.position));
                w.text(lines, true)
            }
        };
        *want.entry(*a).or_default().entry((h, *b)).or_insert(0) += 1;
    }
    for (x, (y, fl)) in &log.nodes {
        t.states += 1;
        let d = g.nodes[x].clone();
        shows(w, &d, y, gc, n).map_err(|e| bad(format!("node {}: {}", x, e)))?;
        if d.sd.is_some() != c.sd || d.tree.is_some() != c.tt {
            return Err(bad(format!("node {} shows {:?} and {:?}", x, d.sd, d.tree)));
        }
        let h = w.text(sd::remains(places, mu, fl, budget.0, budget.1, budget.2, n), false);
        if d.mu != Some(h) {
            return Err(bad(format!("node {} does not show the multi-trace with {:?}", x, fl)));
        }
        let none = BTreeMap::new();
        if d.steps != *want.get(x).unwrap_or(&none) {
            return Err(bad(format!("node {} has other steps than those drawn: {:?}, {:?}", x, d.steps, want.get(x))));
        }
        if d.filtered != *log.filtered.get(x).unwrap_or(&vec![]) {
            return Err(bad(format!("node {}: filtered {:?}, drawn {:?}", x, log.filtered.get(x), d.filtered)));
        }
        let v = log.verdicts.get(x);
        if d.verdict != v.map(|x| x.0.clone()) || d.stat != v.map_or(false, |x| x.1) {
            return Err(bad(format!("node {}: verdict {:?}, drawn {:?}", x, v, d.verdict)));
        }
        // every verdict in its own colour
        let ink = v.map(|v| colour(&v.0).to_string());
        if d.ink != ink.iter().cloned().collect() {
            return Err(bad(format!("node {}: verdict {:?} drawn in {:?}", x, v, d.ink)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn universe(id: &str, th: bool) -> Multi {
    let mut parts = vec![];
    let cr = |l: &[usize]| Op::CoReg(l.to_vec());
    let small = vec![a_empty(), a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true)];
    let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, cr(&[0])];
    match id {
        "C03" => {
            let three = vec![a_em(0, 0), a_em(1, 0), a_empty()];
            parts.push(Universe::new("1 leaf, loops", 3, 2, atoms_comm(2, 1, true), 1, vec![], 0, if th { 3 } else { 2 }, false));
            parts.push(Universe::new("2 leaves, <=1 loop", 2, 1, small.clone(), 2, ops.clone(), 0, if th { 2 } else { 1 }, false));
            parts.push(Universe::new("3 leaves", 2, 1, three.clone(), 3, ops[..4].to_vec(), 0, if th { 1 } else { 0 }, false));
            parts.push(Universe::new("4 leaves", 2, 1, three[..2].to_vec(), 4, if th { vec![Op::Seq, Op::Strict, Op::Par, Op::Alt] } else { vec![Op::Seq, Op::Alt] }, 0, 0, false));
        }
        "L01" => {
            let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, cr(&[0]), Op::Sync(vec![em(0, 0)])];
            parts.push(Universe::new("1 leaf, <=2 loops", 3, 2, atoms_comm(3, 1, true), 1, vec![], 0, 2, false));
            parts.push(Universe::new("3 lifelines at once", 3, 1, vec![a_comm(0, 0, &[1, 2], true), a_comm(1, 0, &[0, 2], true)], 1, vec![], 0, 1, false));
            parts.push(Universe::new("2 leaves, <=1 loop", 2, 1, small.clone(), 2, ops.clone(), 0, if th { 2 } else { 1 }, false));
            parts.push(Universe::new("3 leaves", 2, 1, vec![a_em(0, 0), a_comm(0, 0, &[1], false)], 3, ops.clone(), 0, if th { 1 } else { 0 }, false));
        }
        _ => {
            parts.push(Universe::new("1 leaf, <=1 loop", 3, 1, atoms_comm(2, 1, true), 1, vec![], 0, 1, false));
            parts.push(Universe::new("3 lifelines at once", 3, 1, vec![a_comm(0, 0, &[1, 2], true), a_comm(1, 0, &[0, 2], true)], 1, vec![], 0, 1, true));
            parts.push(Universe::new("2 leaves, <=1 loop", 2, 1, small[1..].to_vec(), 2, ops.clone(), 0, 1, true));
            if th {
                parts.push(Universe::new("3 leaves", 2, 1, vec![a_em(0, 0), a_comm(0, 0, &[1], false)], 3, ops.clone(), 0, 0, true));
            }
        }
    }
    Multi { parts }
}

/// multi-traces that go with an interaction: over its letters, up to `k` of them
fn multi_traces(i: &Interaction, lfs: usize, k: usize, w: &mut W) -> Vec<Vec<(Vec<usize>, Vec<Letter>)>> {
    let parts: Vec<Vec<Vec<usize>>> = match lfs {
        1 => vec![vec![vec![0]]],
        2 => vec![vec![vec![0, 1]], vec![vec![0], vec![1]]],
        _ => vec![vec![vec![0, 1], vec![2]], vec![vec![2], vec![0], vec![1]], vec![vec![0, 1, 2]]],
    };
    let mut out = vec![];
    // views of the words of the language, entire and with one letter less or more
    let l = w.lx.lang(i, k);
    for p in &parts {
        let mut seen: BTreeSet<Vec<Vec<Letter>>> = BTreeSet::new();
        seen.insert(vec![vec![]; p.len()]);
        for x in &l {
            let ls = w.lx.letters_of(*x);
            let view: Vec<Vec<Letter>> = p
                .iter()
                .map(|c| ls.iter().map(|l| l.iter().filter(|a| c.contains(&a.lf_id)).cloned().collect::<Letter>()).filter(|l| !l.is_empty()).collect())
                .collect();
            for c in 0..p.len() {
                let mut v = view.clone();
                if v[c].pop().is_some() {
                    seen.insert(v);
                }
                let mut v = view.clone();
                if !v[c].is_empty() {
                    v[c].remove(0);
                    seen.insert(v);
                }
                let mut v = view.clone();
                v[c].push(Letter::from([em(p[c][0], 0)]));
                seen.insert(v);
            }
            seen.insert(view);
        }
        for v in seen {
            out.push(p.iter().cloned().zip(v).collect());
        }
    }
    out
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let make = || {
        let (dir, stubs) = (Scratch::new(), Scratch::new());
        let cli = Cli::with_stubs(&dir.dir, &stubs.dir, &["dot"]);
        if std::env::args().nth(1).as_deref() == Some("L02") {
            // pictures of local analyses are put away before the next one replaces them
            cli.script(&stubs.dir, "dot", r#"case "$2" in ./stat*.dot|stat*.dot) f=${2##*/}; cp -r temp "kept_${f%.dot}";; esac"#);
        }
        W { cli, dir, pics: Scratch::new(), _stubs: stubs, lx: Lx::new(), seen: HashMap::new() }
    };
    let q = Quiet::new();
    let u = universe(&id, th);
    r.bounds = u.describe();
    let n = u.size();
    r.sweep(n, make, |idx, w, t| {
        if std::env::var("MC_ITEM").map(|x| x != idx.to_string()).unwrap_or(false) {
            return Ok(());
        }
        let (part, term) = u.decode(idx);
        let term = match term {
            Some(x) => x,
            None => return Ok(()),
        };
        if to_itself(&term) || acts(&term) > 7 {
            return Ok(());
        }
        t.items += 1;
        if idx % 97 == 5 {
            t.sample(|| show(&term));
        }
        t.bump("terms");
        if w.lx.letters.len() > 150 {
            w.lx = Lx::new();
        }
        let p = &u.parts[part];
        let k = if has_loop(&term) { 4 } else { acts(&term) };
        match id.as_str() {
            "C03" => {
                canonize(&term, p.lfs, p.mss, false, k, w, t)?;
                canonize(&term, p.lfs, p.mss, true, k, w, t)
            }
            "L01" => {
                for c in confs() {
                    if (c.loops || !has_loop(&term)) && (th || idx % c.every == 0) && (c.name != "loop" || has_loop(&term)) {
                        explore(&term, p.lfs, p.mss, &c, w, t)?;
                    }
                }
                Ok(())
            }
            "L02" => {
                let ts = multi_traces(&term, p.lfs, if th { 4 } else { 2 }, w);
                for (m, comps) in ts.iter().enumerate() {
                    for (j, c) in aconfs().iter().enumerate() {
                        if th || p.lfs == 3 || (m + j + idx as usize) % 5 == 0 {
                            analyze(&term, p.lfs, p.mss, comps, c, w, t)?;
                        }
                    }
                }
                Ok(())
            }
            _ => panic!("unknown property"),
        }
    });
    drop(q);
    std::process::exit(r.finish());
}
