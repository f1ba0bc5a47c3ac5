//! Checks of the rewriting engine: T01 (each step keeps the language), T02 (canonization keeps it,
//! terminates, whole process agrees), T03 (total order on interactions).
use std::cmp::Ordering;
use std::collections::HashSet;

use hibou::core::language::syntax::interaction::Interaction;
use hibou::core::transformation::transfokind::InteractionTransformationKind as K;
use hibou::core::transformation::transfophase::InteractionTransformationPhase;
use hibou::io::input::hcf::canon::options::HibouCanonizeOptions;
use hibou::process::canon::conf::CanonizationConfig;
use hibou::process::canon::context::CanonizationContext;
use hibou::process::canon::node::CanonizationNodeKind;
use hibou::process::canon::param::default::DefaultCanonizationProcess as D;
use hibou::process::canon::param::phase::CanonizationParameterization;
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::manager::manager::GenericProcessManager;

use mc::lang::*;
use mc::report::*;
use mc::universe::*;

fn kinds() -> Vec<K> {
    vec![K::Simpl, K::FlushRight, K::InvertAlt, K::InvertPar, K::Deduplicate, K::FactorizePrefixStrict, K::FactorizePrefixSeq,
         K::FactorizeCommutativePar, K::FactorizeSuffixStrict, K::FactorizeSuffixSeq, K::DeFactorizeLeft, K::DeFactorizeRight,
         K::LoopSimpl, K::LoopUnNest, K::SortActionContent, K::StrictToSeq, K::ParToSeq, K::UnfoldActions]
}

fn universe(th: bool, light: bool) -> Multi {
    let mut parts = vec![];
    let mut all = atoms_single(3, 2);
    all.extend(atoms_comm(3, 1, true));
    all.extend(atoms_exotic());
    all.push(a_comm(0, 0, &[2, 1], false));
    all.push(a_comm(0, 0, &[2, 1], true));
    all.push(a_rc(&[1, 0], 0, true));
    all.push(a_rc(&[1, 0], 0, false));
    let cr = |l: &[usize]| Op::CoReg(l.to_vec());
    let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, cr(&[0]), cr(&[1]), cr(&[0, 1])];
    parts.push(Universe::new("1 leaf, all action forms, <=3 loops", 3, 1, all.clone(), 1, vec![], 0, 3, false));
    parts.push(Universe::new("2 leaves, all action forms, <=2 loops", 3, 2, all.clone(), 2, ops.clone(), 0, 2, true));
    let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, cr(&[0])];
    let a3 = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_comm(0, 0, &[1], false), a_comm(1, 0, &[0], true), a_empty()];
    parts.push(Universe::new("3 leaves, 2 lifelines, <=1 loop", 2, 1, a3.clone(), 3, ops.clone(), 0, if light { 0 } else { 1 }, false));
    let ac = vec![a_em(0, 0), a_em(0, 1), a_em(1, 0), a_comm(0, 0, &[1], true)];
    parts.push(Universe::new("3 leaves, nested co-regions", 2, 2, ac, 3, vec![Op::Seq, cr(&[0]), cr(&[1]), cr(&[0, 1])], 0, 0, false));
    let a4 = vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], false)];
    parts.push(Universe::new("4 leaves, 2 lifelines, no loop", 2, 1, a4.clone(), 4, ops.clone(), 0, 0, false));
    let a2 = vec![a_em(0, 0), a_em(1, 0), a_em(2, 0)];
    parts.push(Universe::new("3 leaves, 2 loops", 3, 1, a2.clone(), 3, ops.clone(), 2, 2, true));
    let ops5 = vec![Op::Seq, Op::Alt, Op::Par];
    let ops5s = vec![Op::Strict, Op::Alt];
    let a5 = vec![a_em(0, 0), a_em(1, 0)];
    parts.push(Universe::new("5 leaves, 2 actions, seq/alt/par", 2, 1, a5.clone(), 5, ops5.clone(), 0, 0, true));
    parts.push(Universe::new("5 leaves, 2 actions, strict/alt", 2, 1, a5.clone(), 5, ops5s.clone(), 0, 0, true));
    if th {
        let a4 = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_comm(0, 0, &[1], false), a_empty()];
        parts.push(Universe::new("4 leaves, 2 lifelines, 5 action forms, no loop", 2, 1, a4, 4, ops.clone(), 0, 0, false));
        parts.push(Universe::new("4 leaves, 3 lifelines, 1 loop", 3, 1, a2.clone(), 4, ops.clone(), 1, 1, true));
        parts.push(Universe::new("5 leaves, 3 actions, no loop", 3, 1, a2.clone(), 5, vec![Op::Strict, Op::Seq, Op::Alt, Op::Par], 0, 0, true));
    }
    Multi { parts }
}

fn bound(i: &Interaction) -> usize {
    let a = acts(i);
    if has_loop(i) { (a + 2).min(5).max(a.min(6)) } else { a.min(7) }
}

fn name(k: &K) -> String {
    format!("{:?}", k)
}

fn each_step(i: &Interaction, k: usize, lx: &mut Lx, t: &mut Tally, skip: &HashSet<String>) -> Result<(), Failure> {
    t.states += 1;
    let l = lx.lang(i, k);
    for kind in kinds() {
        let ph = InteractionTransformationPhase::new(vec![kind.clone()]);
        let all = ph.get_transfos(i, true);
        let one = ph.get_transfos(i, false);
        if one.len() != all.len().min(1) || (one.len() == 1 && !all.iter().any(|r| r.result == one[0].result)) {
            return Err(Failure { key: format!("{}-search", name(&kind)), detail: format!("interaction: {}\n{} applies at {} place(s) when all are asked for, but the single-step search finds {}: {}",
                show(i), name(&kind), all.len(), one.len(), one.iter().map(|r| show(&r.result)).collect::<Vec<_>>().join(" ")) });
        }
        for r in all {
            t.transitions += 1;
            t.validated += 1;
            let got = lx.lang(&r.result, k);
            if got != l {
                let key = name(&kind);
                if skip.contains(&key) {
                    t.bump(&format!("known_{}", key));
                    continue;
                }
                return Err(Failure { key, detail: format!("interaction: {}\n{} at {:?} gives: {}\n{}", show(i), name(&kind), r.position, show(&r.result), lx.diff("before", &l, "after", &got)) });
            }
        }
    }
    Ok(())
}

fn run_manager(i: &Interaction, d: D, all: bool) -> Vec<Interaction> {
    let o = HibouCanonizeOptions::default();
    let delegate = GenericProcessDelegate::new(o.strategy, o.priorities);
    let param = CanonizationParameterization::from_default(d, all);
    let mut m: GenericProcessManager<CanonizationConfig> =
        GenericProcessManager::new(CanonizationContext::new(gen_ctx(3, 2)), param, delegate, o.filters, o.loggers, None, true);
    let (_, v) = m.start_process(CanonizationNodeKind::new(i.clone(), 0));
    v.canonized_ints
}

/// the chain of single steps through the phases
fn chain(i: &Interaction, d: &D, t: &mut Tally) -> Result<Interaction, String> {
    let mut cur = i.clone();
    for ph in d.get_phases() {
        let mut steps = 0;
        let mut seen: HashSet<Interaction> = HashSet::new();
        seen.insert(cur.clone());
        loop {
            let mut r = ph.get_transfos(&cur, false);
            match r.pop() {
                None => break,
                Some(x) => {
                    t.transitions += 1;
                    cur = x.result;
                    steps += 1;
                    if !seen.insert(cur.clone()) {
                        return Err(format!("phase {} comes back to {}", ph, show(&cur)));
                    }
                    if steps > 3000 {
                        return Err(format!("phase {} still rewriting after 3000 steps", ph));
                    }
                }
            }
        }
    }
    Ok(cur)
}

fn canonization(i: &Interaction, k: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    t.states += 1;
    let l = lx.lang(i, k);
    for (n, d) in [("five-phases", D::FivePhases), ("basic", D::Basic), ("basic-unfold", D::BasicWithUnfoldActions), ("basic-seq", D::BasicWithToSeq)] {
        let err = |what: &str, d: String| Failure { key: format!("{}-{}", n, what), detail: format!("interaction: {}\nprocess {}: {}", show(i), n, d) };
        let c = chain(i, &d, t).map_err(|e| err("termination", e))?;
        let got = lx.lang(&c, k);
        t.validated += 1;
        if got != l {
            return Err(err("language", format!("canonical form {}\n{}", show(&c), lx.diff("before", &l, "after", &got))));
        }
        let c2 = chain(&c, &d, t).map_err(|e| err("termination", e))?;
        let c3 = chain(&c2, &d, t).map_err(|e| err("termination", e))?;
        if n != "five-phases" && c2 != c || c3 != c2 {
            return Err(err("stability", format!("canonical form {} is rewritten again into {} then {}", show(&c), show(&c2), show(&c3))));
        }
        let m = run_manager(i, d, false);
        if m.len() != 1 || m[0] != c {
            return Err(err("process", format!("step-by-step rewriting gives {}, the process gives {:?}", show(&c), m.iter().map(show).collect::<Vec<_>>())));
        }
    }
    Ok(())
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let skip: HashSet<String> = HashSet::new();
    let u = universe(th, id == "T02" && !th);
    r.bounds = u.describe();
    match id.as_str() {
        "T01" | "T02" => {
            r.sweep(u.size(), Lx::new, |idx, lx, t| {
                let (part, term) = u.decode(idx);
                let term = match term {
                    Some(x) => x,
                    None => return Ok(()),
                };
                t.bump(&format!("terms_{}", part));
                if idx % 97 == 5 {
                    t.sample(|| show(&term));
                }
                if lx.letters.len() > 200 {
                    *lx = Lx::new();
                }
                let k = bound(&term);
                match id.as_str() {
                    "T01" => each_step(&term, k, lx, t, &skip),
                    _ => canonization(&term, k, lx, t),
                }
            });
        }
        "T03" => {
            let mut terms: Vec<Interaction> = vec![];
            let mut all = atoms_single(2, 2);
            all.extend(atoms_comm(2, 1, true));
            all.extend(atoms_exotic());
            all.push(a_comm(0, 0, &[2, 1], false));
            all.push(a_rc(&[1, 0], 0, false));
            let mut small = Universe::new("x", 3, 2, all, 1, vec![], 0, 2, false);
            for i in 0..small.size() {
                terms.extend(small.decode(i));
            }
            let a2 = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_empty()];
            let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, Op::CoReg(vec![0]), Op::CoReg(vec![0, 1]), Op::CoReg(vec![1]),
                           Op::Sync(vec![em(0, 0)]), Op::Sync(vec![em(0, 0), rc(1, 0)]), Op::Sync(vec![])];
            small = Universe::new("y", 2, 1, a2, 2, ops, 0, if th { 2 } else { 1 }, false);
            for i in 0..small.size() {
                terms.extend(small.decode(i));
            }
            let a3 = vec![a_em(0, 0), a_em(1, 0)];
            let ops = vec![Op::Seq, Op::Alt, Op::Par];
            small = Universe::new("z", 2, 1, a3, 3, ops, 0, 0, false);
            for i in 0..small.size() {
                terms.extend(small.decode(i));
            }
            let mut uniq: Vec<Interaction> = vec![];
            let mut seen = HashSet::new();
            for x in terms {
                if seen.insert(x.clone()) {
                    uniq.push(x);
                }
            }
            let terms = uniq;
            r.bounds = format!("{} distinct interactions, all pairs; transitivity through the sorted sequence", terms.len());
            let n = terms.len() as u64;
            r.sweep(n, || (), |i, _, t| {
                let x = &terms[i as usize];
                t.sample(|| show(x));
                t.states += 1;
                for y in &terms {
                    t.transitions += 1;
                    let c = x.cmp(y);
                    t.validated += 1;
                    if (c == Ordering::Equal) != (x == y) {
                        return Err(Failure { key: "order-eq".into(), detail: format!("{} and {} compare as {:?}", show(x), show(y), c) });
                    }
                    if y.cmp(x) != c.reverse() {
                        return Err(Failure { key: "order-antisym".into(), detail: format!("{} and {} compare as {:?} and {:?}", show(x), show(y), c, y.cmp(x)) });
                    }
                }
                Ok(())
            });
            if !r.has_violation() {
                // rank every term by counting smaller terms: a strict total order gives 0..n-1 exactly
                let rank: Vec<usize> = terms.iter().map(|x| terms.iter().filter(|y| y.cmp(&x) == Ordering::Less).count()).collect();
                let mut sorted = rank.clone();
                sorted.sort();
                for (i, v) in sorted.iter().enumerate() {
                    if i != *v {
                        let j = rank.iter().position(|z| z == v).unwrap();
                        r.fail("order-trans", &format!("the order is not transitive around {}", show(&terms[j])));
                        break;
                    }
                }
            }
        }
        _ => panic!("unknown property"),
    }
    std::process::exit(r.finish());
}
