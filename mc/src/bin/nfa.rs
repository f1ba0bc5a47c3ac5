//! Checks of the translation of interactions to automata: N01.. (see /verif/DESIGN.md).
use std::collections::{BTreeMap, BTreeSet, HashSet};

use autour_core::dfa::dfa::AutDFA;
use autour_core::nfa::nfa::AutNFA;
use autour_core::traits::transform::AutTransformable;
use autour_core::traits::translate::AutTranslatable;

use hibou::core::language::syntax::interaction::{Interaction, LoopKind};
use hibou::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
use hibou::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
use hibou::nfa_translation::experiments::run_nfa_generation_experiment;
use hibou::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;

use mc::cli::*;
use mc::hif::Names;
use mc::lang::*;
use mc::report::*;
use mc::scratch::Scratch;
use mc::universe::*;

fn fail(key: &str, i: &Interaction, what: String) -> Failure {
    Failure { key: key.into(), detail: format!("interaction: {}\n{}", show(i), what) }
}

/// words of at most k letters of an automaton over the given letters
fn words(n: &AutNFA<usize>, k: usize, al: &[Letter], lx: &mut Lx, t: &mut Tally) -> Result<Lang, String> {
    let mut out = vec![];
    let mut level: BTreeMap<Word, BTreeSet<usize>> = BTreeMap::new();
    if !n.initials.is_empty() {
        level.insert(0, n.initials.iter().cloned().collect());
    }
    if std::env::var("MC_TRACE").is_ok() {
        eprintln!("{:?}", n);
    }
    for d in 0..=k {
        let mut next: BTreeMap<Word, BTreeSet<usize>> = BTreeMap::new();
        for (w, st) in &level {
            t.states += 1;
            if st.iter().any(|s| n.finals.contains(s)) {
                out.push(*w);
            }
            if d == k {
                continue;
            }
            for s in st {
                for (l, tg) in &n.transitions[*s] {
                    if !n.alphabet.contains(l) {
                        return Err(format!("letter {} of a transition is not in the alphabet", l));
                    }
                    // letters outside of the language of the term can only lead to deadlocks
                    let none = hibou_none();
                    let a = al.get(*l).unwrap_or(&none);
                    let id = lx.id(a);
                    t.transitions += tg.len() as u64;
                    if !tg.is_empty() {
                        next.entry(cat(*w, d, id as u64)).or_default().extend(tg.iter().cloned());
                    }
                }
            }
        }
        level = next;
    }
    out.sort_unstable();
    Ok(out)
}

fn hibou_none() -> Letter {
    (0..3).map(|l| em(l, 7)).collect()
}

fn dfa_words(n: &AutDFA<usize>, k: usize, al: &[Letter], lx: &mut Lx, t: &mut Tally) -> Result<Lang, String> {
    words(&n.to_nfa(), k, al, lx, t)
}

/// the alphabet of the signature, completed with the letters the interaction can perform
fn alphabet(i: &Interaction, lfs: usize, mss: usize, lx: &mut Lx) -> Vec<Letter> {
    let mut al = get_alphabet_from_gen_ctx(&gen_ctx(lfs, mss));
    let l = lx.lang(i, 7);
    let mut seen: BTreeSet<Letter> = al.iter().cloned().collect();
    for w in l {
        for x in lx.letters_of(w) {
            if seen.insert(x.clone()) {
                al.push(x);
            }
        }
    }
    al
}

fn only_strict_loops(i: &Interaction) -> bool {
    match i {
        Interaction::Loop(k, a) => *k == LoopKind::SStrictSeq && only_strict_loops(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => only_strict_loops(a) && only_strict_loops(b),
        _ => true,
    }
}

fn loops(i: &Interaction) -> usize {
    show(i).matches("loop").count()
}

/// N01: the automaton obtained from an exploration
fn operational(i: &Interaction, lfs: usize, mss: usize, k: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let k = if has_loop(i) { k } else { acts(i).min(7) };
    let want = lx.lang(i, k);
    let al = alphabet(i, lfs, mss, lx);
    let (nfa, _) = get_nfa_from_interaction_exploration(&gen_ctx(lfs, mss), i, al.clone());
    let got = words(&nfa, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?;
    t.validated += 1;
    if only_strict_loops(i) {
        if got != want {
            return Err(fail("language", i, lx.diff("automaton", &got, "language", &want)));
        }
    } else {
        if !is_subset(&got, &want) {
            return Err(fail("language", i, lx.diff("automaton", &got, "language", &want)));
        }
        // at least what twice as many iterations as there are loops can do
        let c = costed(lx, i, k, 2 * loops(i));
        let mut least: Lang = vec![];
        for x in &c {
            least = Lx::l_union(&least, x);
        }
        // (choices made later count the largest of several loop depths)
        if !has_sync_op(i) && !show(i).contains("alt(") && !is_subset(&least, &got) {
            return Err(fail("truncation", i, lx.diff("automaton", &got, "bounded iterations", &least)));
        }
    }
    // the same with the alphabet of the signature only: letters of synchronous communications are added
    let base = get_alphabet_from_gen_ctx(&gen_ctx(lfs, mss));
    let (n2, _) = get_nfa_from_interaction_exploration(&gen_ctx(lfs, mss), i, base.clone());
    if n2.transitions.iter().any(|m| m.keys().any(|l| !n2.alphabet.contains(l))) {
        return Err(fail("alphabet", i, "a letter of a transition is not in the alphabet".into()));
    }
    // where loops are cut may depend on the order in which nodes are memoized
    if only_strict_loops(i) && n2.transitions.len() != nfa.transitions.len() {
        return Err(fail("alphabet", i, format!("{} states, {} with a larger alphabet", n2.transitions.len(), nfa.transitions.len())));
    }
    if al.len() == base.len() {
        let g2 = words(&n2, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?;
        if g2 != got && only_strict_loops(i) {
            return Err(fail("alphabet", i, lx.diff("second automaton", &g2, "automaton", &got)));
        }
        let g = dfa_words(&n2.to_dfa(), k, &al, lx, t).map_err(|e| fail("dfa", i, e))?;
        if g != g2 {
            return Err(fail("dfa", i, lx.diff("determinized automaton", &g, "automaton", &g2)));
        }
    }
    let d = dfa_words(&nfa.to_dfa().minimize(), k, &al, lx, t).map_err(|e| fail("dfa", i, e))?;
    t.validated += 2;
    if d != got {
        return Err(fail("dfa", i, lx.diff("minimal automaton", &d, "automaton", &got)));
    }
    Ok(())
}

/// N02: the automaton obtained by composition, on the fragment it supports
fn compositional(i: &Interaction, lfs: usize, mss: usize, k: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let k = if has_loop(i) { k } else { acts(i).min(7) };
    let want = lx.lang(i, k);
    let al = alphabet(i, lfs, mss, lx);
    let r = guarded(|| get_nfa_from_interaction_via_composition(&gen_ctx(lfs, mss), i, al.clone()));
    let (nfa, _) = r.map_err(|e| fail("crash", i, format!("panic: {}", e)))?;
    let got = words(&nfa, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?;
    t.validated += 1;
    if got != want {
        return Err(fail("composition", i, lx.diff("composition", &got, "language", &want)));
    }
    // the experiment: every automaton it builds
    let r = guarded(|| run_nfa_generation_experiment(i.clone(), gen_ctx(lfs, mss), 1, 6));
    let r = r.map_err(|e| fail("crash", i, format!("panic in the experiment: {}", e)))?;
    // letters of the experiment: those of the signature, then the synchronous ones in any order
    let base = get_alphabet_from_gen_ctx(&gen_ctx(lfs, mss));
    let extra: Vec<Letter> = al[base.len()..].to_vec();
    if extra.len() <= 1 {
        let mut l: Vec<(&str, Lang)> = vec![];
        l.push(("operational NFA", words(&r.nfa_operational, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?));
        l.push(("compositional NFA", words(&r.nfa_compositional, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?));
        l.push(("minimal DFA (operational)", dfa_words(&r.dfa_minimized_from_opera, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?));
        l.push(("minimal DFA (compositional)", dfa_words(&r.dfa_minimized_from_compo, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?));
        if r.nfa_operational.transitions.len() < 6 {
            l.push(("minimized NFA (operational)", words(&r.nfa_minimized_kw_from_opera, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?));
        }
        if r.nfa_compositional.transitions.len() < 6 {
            l.push(("minimized NFA (compositional)", words(&r.nfa_minimized_kw_from_compo, k, &al, lx, t).map_err(|e| fail("nfa", i, e))?));
        }
        for (n, x) in l {
            t.validated += 1;
            if x != want {
                return Err(fail("experiment", i, lx.diff(n, &x, "language", &want)));
            }
        }
    }
    if r.dfa_minimized_from_opera.transitions.len() != r.dfa_minimized_from_compo.transitions.len() {
        return Err(fail("experiment", i, "the minimal automata of both methods differ".into()));
    }
    Ok(())
}

struct W {
    lx: Lx,
    cli: Cli,
    dir: Scratch,
}

/// the words an interaction can execute, even towards a deadlock; None when not known
fn executable(i: &Interaction, lx: &mut Lx) -> Option<Lang> {
    if !has_sync_op(i) {
        let l = lx.lang(i, 7);
        let mut out: BTreeSet<Word> = BTreeSet::new();
        for w in &l {
            for k in 0..=wlen(*w) {
                out.insert(if k >= 8 { *w } else { *w & ((1u64 << (8 * k)) - 1) });
            }
        }
        return Some(out.into_iter().collect());
    }
    match i {
        Interaction::Sync(s, a, b) => {
            let (a, b) = (executable(a, lx)?, executable(b, lx)?);
            Some(lx.l_sync(&s.iter().cloned().collect(), &a, &b, 7))
        }
        Interaction::Alt(a, b) => Some(Lx::l_union(&executable(a, lx)?, &executable(b, lx)?)),
        _ => None,
    }
}

/// N03: traces analysed with the automaton, through the command
fn monitor(i: &Interaction, lfs: usize, mss: usize, n: usize, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let names = Names::std(lfs, mss);
    let lx = &mut w.lx;
    let k = if has_loop(i) { n + acts(i) * 2 } else { acts(i) };
    if k > 7 || (has_loop(i) && !only_strict_loops(i) && n > 2) {
        return Ok(());
    }
    let l = lx.lang(i, 7);
    let mut pre: HashSet<Word> = HashSet::new();
    let mut ids: BTreeSet<u8> = BTreeSet::new();
    for w in &l {
        for k in 0..=wlen(*w) {
            pre.insert(if k >= 8 { *w } else { *w & ((1u64 << (8 * k)) - 1) });
        }
        let ls = lx.letters_of(*w);
        for x in ls {
            ids.insert(lx.id(&x));
        }
    }
    // two foreign letters: one of a single action, one of two
    let sets: Vec<Letter> = vec![vec![em(0, mss - 1)].into_iter().collect(), vec![em(0, mss - 1), rc(lfs - 1, mss - 1)].into_iter().collect(), vec![rc(0, 0), rc(lfs - 1, 0)].into_iter().collect()];
    for s in sets {
        let x = lx.id(&s);
        ids.insert(x);
    }
    // with the synchronization operator, executions may end in a deadlock
    let most: Option<HashSet<Word>> = executable(i, lx).map(|x| x.into_iter().collect());
    let (s, h, f) = (w.dir.file("s.hsf"), w.dir.file("i.hif"), w.dir.file("t.htf"));
    std::fs::write(&s, names.hsf()).unwrap();
    std::fs::write(&h, names.hif(i)).unwrap();
    // every word of at most n letters of which all strict prefixes are prefixes
    let mut level: Vec<Word> = vec![0];
    for d in 0..=n {
        let mut next = vec![];
        for u in &level {
            let ls = lx.letters_of(*u);
            std::fs::write(&f, names.htf(&[((0..lfs).collect(), ls.clone())])).unwrap();
            let o = w.cli.run(&["nfa_analyze", &s, &h, &f]);
            t.states += d as u64 + 1;
            t.transitions += d as u64;
            t.validated += 1;
            let v = o.value("verdict").unwrap_or_default();
            let yes = v == "re-enacted trace without deviations";
            let no = v == "failed to re-enact trace";
            let want = pre.contains(u);
            t.bump(if want { "reenacted" } else { "refused" });
            if o.panicked() || yes == no || (want && !yes) || (yes && most.as_ref().map(|m| !m.contains(u)).unwrap_or(false)) {
                return Err(fail("monitor", i, format!("trace: {}\n{}: prefix of a specified trace: {}\n{}{}", lx.show(*u), v, want, o.text, o.err)));
            }
            if yes {
                for x in &ids {
                    next.push(cat(*u, d, *x as u64));
                }
            }
        }
        level = next;
    }
    Ok(())
}

fn universe(id: &str, th: bool) -> Multi {
    let mut all = atoms_single(3, 1);
    all.extend(atoms_comm(3, 1, true));
    all.extend(atoms_exotic());
    let cr = |l: &[usize]| Op::CoReg(l.to_vec());
    let mut ops = vec![Op::Strict, Op::Alt, Op::Par];
    if id != "N02" {
        ops.extend(vec![Op::Seq, cr(&[0])]);
    }
    let mut ops_s = ops.clone();
    if id == "N01" {
        ops_s.push(Op::Sync(vec![em(0, 0)]));
    }
    let small = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true), a_comm(0, 1, &[1], true), a_empty()];
    let mut parts = vec![];
    parts.push(Universe::new("1 leaf, all action forms, <=2 loops", 3, 1, all.clone(), 1, vec![], 0, 2, true));
    parts.push(Universe::new("2 leaves, all action forms, no loop", 3, 1, all.clone(), 2, ops_s.clone(), 0, 0, true));
    parts.push(Universe::new("2 leaves, <=2 loops", 2, 2, small.clone(), 2, ops_s.clone(), 1, if id == "N03" { 1 } else { 2 }, true));
    if id != "N03" || th {
        parts.push(Universe::new("3 leaves, <=1 loop", 2, 2, vec![a_em(0, 0), a_em(1, 0), a_em(0, 1), a_comm(0, 0, &[1], false), a_comm(1, 1, &[0], true)], 3, ops.clone(), 0, 1, true));
    }
    if th || id == "N02" {
        parts.push(Universe::new("3 leaves, 2 loops", 2, 2, vec![a_em(0, 0), a_em(1, 0), a_em(0, 1)], 3, ops.clone(), 2, 2, true));
    }
    if th {
        parts.push(Universe::new("4 leaves, no loop", 2, 2, vec![a_em(0, 0), a_em(0, 1), a_comm(0, 0, &[1], false)], 4, ops.clone(), 0, 0, true));
    }
    if id == "N03" {
        // letters that only exist once synchronized
        let atoms = vec![a_comm(0, 0, &[1], true), a_comm(0, 0, &[2], true), a_rc(&[1], 0, true), a_em(0, 0), a_comm(0, 0, &[1, 2], true), a_empty()];
        let sy = vec![Op::Sync(vec![em(0, 0)]), Op::Sync(vec![em(0, 0), rc(1, 0)]), Op::Sync(vec![rc(1, 0)])];
        parts.push(Universe::new("2 synchronized leaves", 3, 1, atoms.clone(), 2, sy.clone(), 0, 1, true));
        let mut more = sy[..2].to_vec();
        more.extend([Op::Seq, Op::Alt]);
        parts.push(Universe::new("3 leaves, synchronized", 3, 1, atoms[..if th { 5 } else { 3 }].to_vec(), 3, more, 0, 0, true));
    }
    if id == "N02" {
        // weak sequencing of plain actions below the operators of the fragment
        parts.push(Universe::new("3 leaves with weak sequencing", 2, 2, vec![a_em(0, 0), a_em(1, 0), a_em(1, 1)], 3, vec![Op::Strict, Op::Seq, Op::Alt, Op::Par], 0, 1, true));
    }
    Multi { parts }
}

/// what the compositional translation is meant for: weak sequencing only of plain actions
fn fragment(i: &Interaction) -> bool {
    fn basic(i: &Interaction) -> bool {
        match i {
            Interaction::Empty | Interaction::Emission(_) | Interaction::Reception(_) => true,
            Interaction::Strict(a, b) | Interaction::Seq(a, b) => basic(a) && basic(b),
            _ => false,
        }
    }
    basic(i) || match i {
        Interaction::Strict(a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b) => fragment(a) && fragment(b),
        Interaction::Loop(LoopKind::SStrictSeq, a) => fragment(a),
        _ => false,
    }
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let u = universe(&id, th);
    r.bounds = u.describe();
    let n = u.size();
    {
        let _q = Quiet::new();
        r.sweep(n, || { let dir = Scratch::new(); W { lx: Lx::new(), cli: Cli::new(&dir.dir), dir } }, |idx, w, t| {
            if std::env::var("MC_ITEM").map(|x| x != idx.to_string()).unwrap_or(false) {
                return Ok(());
            }
            let (part, term) = u.decode(idx);
            let term = match term {
                Some(x) => x,
                None => return Ok(()),
            };
            if acts(&term) > 7 || (id == "N02" && !fragment(&term)) {
                return Ok(());
            }
            t.items += 1;
            if idx % 97 == 5 {
                t.sample(|| show(&term));
            }
            t.bump("terms");
            if w.lx.letters.len() > 150 {
                w.lx = Lx::new();
            }
            let (lfs, mss) = (u.parts[part].lfs, u.parts[part].mss);
            let k = if th { 6 } else { 5 };
            match id.as_str() {
                "N01" => operational(&term, lfs, mss, k, &mut w.lx, t),
                "N02" => compositional(&term, lfs, mss, k, &mut w.lx, t),
                "N03" => monitor(&term, lfs, mss, if has_loop(&term) || !th { 2 } else { 3 }, w, t),
                _ => panic!("unknown property"),
            }
        });
    }
    std::process::exit(r.finish());
}
