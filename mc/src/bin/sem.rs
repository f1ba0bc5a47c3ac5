//! Checks of the operational semantics core: S01.. (see /verif/DESIGN.md).
use std::collections::{BTreeMap, BTreeSet, HashSet};

use hibou::core::execution::semantics::execute::execute_interaction;
use hibou::core::execution::semantics::frontier::{global_frontier, FrontierElement};
use hibou::core::language::avoid::avoids::AvoidsLifelines;
use hibou::core::language::eliminate_lf::eliminable::LifelineEliminable;
use hibou::core::language::involve::involves::InvolvesLifelines;
use hibou::core::language::position::position::Position;
use hibou::core::language::prune::prunable::LifelinePrunable;
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};

use mc::lang::*;
use mc::report::*;
use mc::universe::*;

fn coregs(lfs: usize) -> Vec<Op> {
    let mut v = vec![];
    for m in 1..(1usize << lfs) {
        v.push(Op::CoReg((0..lfs).filter(|l| m & (1 << l) != 0).collect()));
    }
    v
}

fn ops_plain(lfs: usize) -> Vec<Op> {
    let mut v = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par];
    v.extend(coregs(lfs));
    v
}

/// terms without the synchronisation operator
fn plain(th: bool) -> Multi {
    let mut all3 = atoms_single(3, 2);
    all3.extend(atoms_comm(3, 2, true));
    all3.extend(atoms_exotic());
    let mut parts = vec![];
    parts.push(Universe::new("1 leaf, all action forms, <=3 loops", 3, 1, all3.clone(), 1, vec![], 0, 3, true));
    parts.push(Universe::new("2 leaves, all action forms, 3 lifelines, 2 messages, <=2 loops", 3, 2, all3.clone(), 2, ops_plain(3), 0, if th { 3 } else { 2 }, true));
    // 3 leaves: basic actions
    let mut b3 = atoms_single(3, 1);
    b3.push(a_comm(0, 0, &[1], false));
    b3.push(a_comm(0, 0, &[1], true));
    b3.push(a_comm(1, 0, &[0], false));
    b3.push(a_comm(1, 0, &[2], false));
    b3.push(a_empty());
    let ops3 = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, Op::CoReg(vec![0]), Op::CoReg(vec![1])];
    parts.push(Universe::new("3 leaves, 3 lifelines, 1 message, <=1 loop", 3, 1, b3.clone(), 3, ops3.clone(), 0, 1, true));
    let mut s2 = vec![a_em(0, 0), a_em(0, 1), a_em(1, 0), a_rc(&[0], 1, false), a_rc(&[1], 0, false), a_comm(0, 0, &[1], false), a_comm(1, 1, &[0], false)];
    parts.push(Universe::new("3 leaves, 2 lifelines, 2 messages, <=1 loop", 2, 2, s2.clone(), 3, ops3.clone(), 0, 1, false));
    if th {
        s2.truncate(5);
        parts.push(Universe::new("3 leaves, 2 lifelines, 2 messages, 2 loops", 2, 2, s2.clone(), 3, ops3.clone(), 2, 2, false));
        let s4 = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_em(2, 0), a_comm(0, 0, &[1], false)];
        parts.push(Universe::new("4 leaves, 3 lifelines, 1 message, no loop", 3, 1, s4.clone(), 4, ops3.clone(), 0, 0, true));
        let s4 = vec![a_em(0, 0), a_em(1, 0), a_em(2, 0)];
        parts.push(Universe::new("4 leaves, 3 lifelines, 1 message, 1 loop", 3, 1, s4, 4, ops3.clone(), 1, 1, true));
    }
    Multi { parts }
}

/// terms with the synchronisation operator
fn synced(th: bool) -> Multi {
    let mut atoms = vec![a_em(0, 0), a_em(0, 1), a_em(1, 0), a_rc(&[1], 0, false), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true), a_comm(0, 1, &[1], false)];
    let syncs = vec![
        Op::Sync(vec![em(0, 0)]),
        Op::Sync(vec![em(0, 0), rc(1, 0)]),
        Op::Sync(vec![em(0, 1), em(0, 0)]),
        Op::Sync(vec![rc(1, 0)]),
        Op::Sync(vec![]),
    ];
    let mut parts = vec![];
    parts.push(Universe::new("2 leaves, synchronised, <=2 loops", 2, 2, atoms.clone(), 2, syncs.clone(), 0, 2, false));
    let mut ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, Op::CoReg(vec![0])];
    ops.extend(syncs);
    parts.push(Universe::new("3 leaves, synchronised, no loop", 2, 2, atoms.clone(), 3, ops.clone(), 0, 0, false));
    atoms.truncate(4);
    parts.push(Universe::new("3 leaves, synchronised, 1 loop", 2, 2, atoms.clone(), 3, ops.clone(), 1, 1, false));
    let multi = vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], true), a_rc(&[1], 0, false)];
    parts.push(Universe::new("3 leaves, synchronised multi-actions, 1 loop", 2, 1, multi, 3,
                             vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, Op::CoReg(vec![0]), Op::CoReg(vec![1]), Op::Sync(vec![em(0, 0)]), Op::Sync(vec![em(0, 0), rc(1, 0)])], 0, 1, false));
    if th {
        let ops4 = vec![Op::Seq, Op::Alt, Op::Par, Op::Sync(vec![em(0, 0)]), Op::Sync(vec![em(0, 0), rc(1, 0)])];
        parts.push(Universe::new("4 leaves, synchronised, no loop", 2, 2, atoms.clone(), 4, ops4, 0, 0, false));
    }
    Multi { parts }
}

fn bound(i: &Interaction, th: bool) -> usize {
    let a = acts(i);
    if has_loop(i) {
        // what follows a first iteration of two actions must be seen over two more
        let more = if has_head_first(i) { 2 } else { 1 };
        (a + more).max(3).min(if th { 6 } else { 5 }).max(a.min(6))
    } else {
        a.min(7)
    }
}

fn has_head_first(i: &Interaction) -> bool {
    show(i).contains("loopH")
}

fn letter_lfs(l: &Letter) -> BTreeSet<usize> {
    l.iter().map(|a| a.lf_id).collect()
}

fn next(i: &Interaction, delayed: bool) -> Vec<FrontierElement> {
    global_frontier(i, delayed)
}

fn exec(i: &Interaction, f: &FrontierElement, aff: bool) -> (Interaction, BTreeSet<usize>) {
    let r = execute_interaction(i, &f.position, &f.target_lf_ids, aff);
    (r.interaction, r.affected_lifelines)
}

fn fail(key: &str, root: &Interaction, what: String) -> Failure {
    let key = if std::env::var("MC_ALL").is_ok() { format!("{}:{}", key, shape(root)) } else { key.to_string() };
    Failure { key, detail: format!("interaction: {}\n{}", show(root), what) }
}

/// debugging aid: operators of a term
fn shape(i: &Interaction) -> String {
    let s = show(i);
    let mut v = vec![];
    for k in ["coreg", "<sync>a-", "sync>", "loopS", "loopH", "loopW", "loopP", "strict", "seq", "alt", "par"] {
        if s.contains(k) {
            v.push(k);
        }
    }
    v.join("+")
}

/// loop operators crossed by a position
fn loops_on(i: &Interaction, p: &Position) -> u32 {
    match (i, p) {
        (Interaction::Loop(_, a), Position::Left(q)) => 1 + loops_on(a, q),
        (Interaction::Strict(a, b), _) | (Interaction::Seq(a, b), _) | (Interaction::CoReg(_, a, b), _)
        | (Interaction::Alt(a, b), _) | (Interaction::Par(a, b), _) | (Interaction::Sync(_, a, b), _) => match p {
            Position::Left(q) => loops_on(a, q),
            Position::Right(q) => loops_on(b, q),
            Position::Both(q, r) => loops_on(a, q).max(loops_on(b, r)),
            _ => 0,
        },
        _ => 0,
    }
}

/// S01 / S02: at every interaction reachable in `depth` steps, the immediate actions and their
/// follow-ups are exactly the derivatives of the bounded trace language.
fn derivatives(root: &Interaction, k: usize, depth: usize, lx: &mut Lx, t: &mut Tally, key: &str) -> Result<(), Failure> {
    for delayed in [true, false] {
        let mut seen: HashSet<Interaction> = HashSet::new();
        let mut layer = vec![(root.clone(), k)];
        seen.insert(root.clone());
        for d in 0..=depth {
            let mut nxt = vec![];
            for (i, k) in layer {
                t.states += 1;
                let l = lx.lang(&i, k);
                if i.express_empty() != l.contains(&0) {
                    return Err(fail(key, root, format!("at {}: may terminate now: implementation {}, trace language {}", show(&i), i.express_empty(), l.contains(&0))));
                }
                let mut got: Lang = vec![];
                if i.express_empty() {
                    got.push(0);
                }
                for f in next(&i, delayed) {
                    t.transitions += 1;
                    if f.target_actions.is_empty() || letter_lfs(&f.target_actions) != f.target_lf_ids {
                        return Err(fail(key, root, format!("at {}: immediate step {:?} with lifelines {:?}", show(&i), f.target_actions, f.target_lf_ids)));
                    }
                    let (res, _) = exec(&i, &f, false);
                    let a = lx.id(&f.target_actions);
                    if k > 0 {
                        for w in lx.lang(&res, k - 1) {
                            got.push(cons(a, w));
                        }
                        if d < depth && seen.insert(res.clone()) {
                            nxt.push((res, k - 1));
                        }
                    }
                }
                got.sort_unstable();
                got.dedup();
                t.validated += got.len() as u64;
                if got != l {
                    return Err(fail(key, root, format!("delayed choice: {}, reached {} (word bound {})\n{}", delayed, show(&i), k,
                                                        lx.diff("execution", &got, "trace language", &l))));
                }
            }
            layer = nxt;
        }
    }
    Ok(())
}

/// immediate actions are never spurious: each one starts some complete behaviour
fn subsets(lfs: usize) -> Vec<BTreeSet<usize>> {
    (0..(1usize << lfs)).map(|m| (0..lfs).filter(|l| m & (1 << l) != 0).collect()).collect()
}

fn mask(s: &BTreeSet<usize>) -> u32 {
    s.iter().fold(0, |m, l| m | (1 << l))
}

/// S03: avoiding / pruning lifelines
fn pruning(root: &Interaction, lfs: usize, k: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let l = lx.lang(root, k);
    t.states += 1;
    let inv = root.involved_lifelines();
    for s in subsets(lfs) {
        t.transitions += 1;
        let m = mask(&s);
        let want: Lang = l.iter().cloned().filter(|w| lx.lf_mask_of(*w) & m == 0).collect();
        let avoids = root.avoids_all_of(&s);
        if root.involves_any_of(&s) != inv.iter().any(|x| s.contains(x)) {
            return Err(fail("prune", root, format!("involvement of lifelines {:?} is inconsistent", s)));
        }
        // the shortest words avoiding s are always within the bound of the universe
        if avoids != !want.is_empty() && (avoids || !want.is_empty()) {
            if !want.is_empty() || acts(root) <= k {
                return Err(fail("prune", root, format!("can avoid lifelines {:?}: implementation {}, trace language {}", s, avoids, !want.is_empty())));
            }
        }
        if avoids {
            let p = root.prune(&s);
            let got = lx.lang(&p, k);
            t.validated += got.len() as u64;
            if got != want {
                return Err(fail("prune", root, format!("pruning lifelines {:?} gives {}\n{}", s, show(&p), lx.diff("pruned", &got, "words avoiding them", &want))));
            }
            if p.involves_any_of(&s) {
                return Err(fail("prune", root, format!("pruning lifelines {:?} gives {} which still involves them", s, show(&p))));
            }
            if !has_sync_op(root) {
                let (p2, affected) = root.prune_with_affected(&s);
                if p2 != p && lx.lang(&p2, k) != got {
                    return Err(fail("prune", root, format!("pruning lifelines {:?} gives {} or {} depending on whether the affected lifelines are asked for", s, show(&p), show(&p2))));
                }
                check_affected(root, &p, &affected, lfs, k, None, lx, "prune", "pruning")?;
            }
        }
    }
    Ok(())
}

/// a lifeline not reported as affected sees the same possible behaviours before and after
fn check_affected(before: &Interaction, after: &Interaction, affected: &BTreeSet<usize>, lfs: usize, k: usize, act: Option<&Letter>, lx: &mut Lx, key: &str, what: &str) -> Result<(), Failure> {
    for l in 0..lfs {
        if affected.contains(&l) {
            continue;
        }
        if let Some(a) = act {
            if a.iter().any(|x| x.lf_id == l) {
                return Err(fail(key, before, format!("{} on lifeline {} which is not reported as affected", what, l)));
            }
        }
        let keep: BTreeSet<usize> = (0..lfs).filter(|x| *x != l).collect();
        let x = before.eliminate_lifelines(&keep);
        let y = after.eliminate_lifelines(&keep);
        if x != y {
            // syntactically different local views: compare their languages
            let (a, b) = (lx.lang(&x, k), lx.lang(&y, k));
            if a != b {
                return Err(fail(key, before, format!("{} changes the local behaviour of lifeline {} which is not reported as affected\nresult: {}\n{}", what, l, show(after), lx.diff("local view before", &a, "local view after", &b))));
            }
        }
    }
    Ok(())
}

/// S04: variants of the execution agree
fn variants(root: &Interaction, lfs: usize, k: usize, depth: usize, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    let key = "variants";
    let mut seen: HashSet<Interaction> = HashSet::new();
    let mut layer = vec![root.clone()];
    for d in 0..=depth {
        let mut nxt = vec![];
        for i in layer {
            t.states += 1;
            let mut by: [BTreeMap<u8, Lang>; 2] = [BTreeMap::new(), BTreeMap::new()];
            for (n, delayed) in [true, false].iter().enumerate() {
                let mut letters_seen: BTreeMap<u8, usize> = BTreeMap::new();
                for f in next(&i, *delayed) {
                    t.transitions += 1;
                    let (r1, none) = exec(&i, &f, false);
                    let (r2, affected) = exec(&i, &f, true);
                    t.validated += 1;
                    if r1 != r2 && lx.lang(&r1, k) != lx.lang(&r2, k) {
                        return Err(fail(key, root, format!("at {}: executing {:?} at {:?} gives {} or {} depending on whether the affected lifelines are asked for", show(&i), f.target_actions, f.position, show(&r1), show(&r2))));
                    }
                    if !none.is_empty() {
                        return Err(fail(key, root, format!("at {}: affected lifelines given though not asked for", show(&i))));
                    }
                    if f.max_loop_depth != loops_on(&i, &f.position) {
                        return Err(fail(key, root, format!("at {}: step {:?} at {:?} reported under {} loops", show(&i), f.target_actions, f.position, f.max_loop_depth)));
                    }
                    check_affected(&i, &r1, &affected, lfs, k, Some(&f.target_actions), lx, key, &format!("executing {:?} at {:?}", f.target_actions, f.position))?;
                    let a = lx.id(&f.target_actions);
                    *letters_seen.entry(a).or_insert(0) += 1;
                    let l = lx.lang(&r1, k);
                    let e = by[n].entry(a).or_insert_with(Vec::new);
                    *e = Lx::l_union(e, &l);
                    if d < depth && seen.insert(r1.clone()) {
                        nxt.push(r1);
                    }
                }
            }
            if by[0] != by[1] {
                return Err(fail(key, root, format!("at {}: delayed and immediate resolution of alternatives allow different continuations", show(&i))));
            }
        }
        layer = nxt;
    }
    Ok(())
}

/// S05: elimination of lifelines leaves exactly the local behaviours of the other lifelines
fn elimination(root: &Interaction, lfs: usize, k: usize, th: bool, lx: &mut Lx, t: &mut Tally) -> Result<(), Failure> {
    t.states += 1;
    let looped = has_loop(root);
    let k = if looped { if th { 6 } else { k.min(5) } } else { k };
    let exact = !coreg_on_ordered(root);
    let inv = root.involved_lifelines();
    let l = lx.lang(root, k);
    let n = acts(root).max(1);
    for s in subsets(lfs) {
        if s.iter().filter(|x| !inv.contains(x)).count() > 1 {
            continue;
        }
        t.transitions += 1;
        let m = mask(&s);
        let e = root.eliminate_lifelines(&s);
        if e.involves_any_of(&s) {
            return Err(fail("elim", root, format!("eliminating {:?} gives {} which still involves them", s, show(&e))));
        }
        if e == *root {
            continue;
        }
        let el = lx.lang(&e, k);
        let want = lx.views_of(&l, lfs, m);
        let got = lx.views_of(&el, lfs, m);
        t.validated += got.len() as u64;
        let mut bad: Vec<Vec<Word>> = vec![];
        for w in &want {
            // a projection within the bound
            let total: usize = w.iter().map(|x| wlen(*x)).sum();
            if total <= k && !got.contains(w) {
                bad.push(w.clone());
            }
        }
        // a local behaviour of the result with t actions needs at most t iterations of each loop
        let size = if looped { k / n } else { k };
        for w in &got {
            if !exact {
                break;
            }
            let total: usize = w.iter().map(|x| wlen(*x)).sum();
            if total <= size && !want.contains(w) {
                bad.push(w.clone());
            }
        }
        if let Some(w) = bad.iter().min() {
            let v: Vec<String> = w.iter().map(|x| lx.show(*x)).collect();
            return Err(fail("elim", root, format!("eliminating {:?} gives {}\nlocal behaviours ({}): in projection {}, in result {}", s, show(&e), v.join(" | "), want.contains(w), got.contains(w))));
        }
    }
    Ok(())
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let u = match id.as_str() {
        "S02" => synced(th),
        _ => plain(th),
    };
    r.bounds = u.describe();
    let n = u.size();
    let only: Option<u64> = std::env::var("MC_ITEM").ok().and_then(|s| s.parse().ok());
    r.sweep(n, Lx::new, |idx, lx, t| {
        if let Some(o) = only {
            if idx != o {
                return Ok(());
            }
        }
        let (part, term) = u.decode(idx);
        let term = match term {
            Some(x) => x,
            None => return Ok(()),
        };
        t.items += 1;
        if idx % 997 == 5 {
            t.sample(|| show(&term));
        }
        t.bump(&format!("terms_{}", part));
        let lfs = u.parts[part].lfs;
        let k = bound(&term, th);
        if lx.letters.len() > 200 {
            *lx = Lx::new();
        }
        match id.as_str() {
            "S01" => derivatives(&term, k, 2, lx, t, "derivative"),
            "S02" => derivatives(&term, k, 2, lx, t, "derivative"),
            "S03" => pruning(&term, lfs, k, lx, t),
            "S04" => variants(&term, lfs, k.min(4), 1, lx, t),
            "S05" => elimination(&term, lfs, k, th, lx, t),
            _ => panic!("unknown property"),
        }
    });
    let items: u64 = r.extra.iter().filter(|x| x.0.starts_with("terms_")).map(|x| *x.1).sum();
    r.count("terms", items);
    std::process::exit(r.finish());
}
