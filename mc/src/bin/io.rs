//! Checks of the textual formats: I01.. (see /verif/DESIGN.md).
use std::collections::BTreeSet;

use mc::cli::Quiet;
use mc::hif::Names;
use mc::report::*;
use mc::scratch::Scratch;
use mc::syntax::*;
use mc::universe::*;

use hibou::core::colocalizations::CoLocalizations;
use hibou::core::execution::trace::trace::TraceAction;
use hibou::core::general_context::GeneralContext;
use hibou::core::language::syntax::interaction::Interaction;
use hibou::io::input::error::HibouParsingError as E;
use hibou::io::input::hif::interface::parse_hif_file;
use hibou::io::input::hsf::interface::parse_hsf_file;
use hibou::io::input::htf::interface::parse_htf_file;
use hibou::io::output::to_hfiles::interaction::to_hif::interaction_to_hif;
use hibou::io::output::to_hfiles::trace::to_htf::write_multi_trace_into_file;

fn fail(key: &str, text: &str, d: String) -> Failure {
    Failure { key: key.to_string(), detail: format!("text:\n{}\n{}", text, d) }
}

fn s(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

fn names_sets() -> Vec<Names> {
    let mk = |l: &[&str], m: &[&str], g: &[&str]| Names { lf: s(l), ms: s(m), gt: s(g) };
    vec![
        mk(&["a", "b", "c"], &["m", "n", "p"], &["g", "h"]),
        mk(&["o", "oo", "o1"], &["o", "oo", "o_"], &["o2", "ooo"]),
        mk(&["strict", "seq", "par"], &["alt", "loopS", "coreg"], &["sync", "and"]),
        mk(&["loopW", "loopH", "loop"], &["synch", "asynch", "strict"], &["S", "loopP"]),
        mk(&["é", "Zürich", "Ω1"], &["ñ", "mé_2", "日本"], &["ß", "ü_"]),
        mk(&["a", "aa", "aaa"], &["a", "aa", "a_"], &["A", "AA"]),
        mk(&["l_1_", "l__", "l1"], &["x9", "x_9", "x"], &["y0", "y"]),
        mk(&["sync", "coreg", "alt"], &["sync", "seq", "par"], &["any", "all"]),
    ]
}

fn ctx_of(n: &Names) -> GeneralContext {
    let mut g = GeneralContext::new();
    for x in &n.lf {
        g.add_lf(x.clone());
    }
    for x in &n.ms {
        g.add_msg(x.clone());
    }
    for x in &n.gt {
        g.add_gt(x.clone());
    }
    g
}

fn seps() -> Vec<&'static str> {
    vec!["", " ", "\n\t", "\r\n", "/* o, a!m; */", " /**/ "]
}

fn render(t: &[String], sep: &dyn Fn(usize) -> &'static str) -> String {
    let mut x = sep(0).to_string();
    for (k, y) in t.iter().enumerate() {
        x += y;
        x += sep(k + 1);
    }
    x
}

/// every layout in which at most one gap differs from a uniform separator
fn layouts(t: &[String], quick: bool) -> Vec<String> {
    let all = seps();
    let mut v = vec![];
    for b in &all {
        v.push(render(t, &|_| b));
    }
    if !quick {
        for k in 0..=t.len() {
            for x in &all[1..] {
                v.push(render(t, &|i| if i == k { x } else { "" }));
            }
        }
    }
    v
}

/// every text at one edit of one token
fn edits(t: &[String], alphabet: &[String]) -> Vec<Vec<String>> {
    let mut v = vec![];
    for k in 0..t.len() {
        let mut x = t.to_vec();
        x.remove(k);
        v.push(x);
        let mut x = t.to_vec();
        x.insert(k, t[k].clone());
        v.push(x);
        if k + 1 < t.len() {
            let mut x = t.to_vec();
            x.swap(k, k + 1);
            v.push(x);
        }
        for a in alphabet {
            let mut x = t.to_vec();
            x[k] = a.clone();
            v.push(x);
        }
    }
    for k in 0..=t.len() {
        for a in alphabet {
            let mut x = t.to_vec();
            x.insert(k, a.clone());
            v.push(x);
        }
    }
    v
}

fn code(e: &E) -> String {
    let d = format!("{:?}", e);
    match e {
        E::MissingLifelineDeclarationError(_) | E::MissingMessageDeclarationError(_) | E::MissingLifelineOrGateDeclarationError(_) | E::MissingGateDeclarationError(_) => d,
        _ => d.split('(').next().unwrap().to_string(),
    }
}

/// compares what the reader gives with the reference
fn agree<T: PartialEq + std::fmt::Debug>(text: &str, got: Result<T, E>, want: &Ref<T>) -> Result<(), Failure> {
    let ok = match (&got, want) {
        (Ok(x), Ref::Ok(y)) => x == y,
        (Err(E::MatchError(_)), Ref::Syntax) => true,
        (Err(e), Ref::Err(l)) => l.contains(&code(e)),
        _ => false,
    };
    if ok {
        return Ok(());
    }
    let key = match (&got, want) {
        (Ok(_), Ref::Ok(_)) => "content",
        (Ok(_), _) => "accepted",
        (Err(_), Ref::Ok(_)) => "rejected",
        _ => "error",
    };
    Err(fail(key, text, format!("read: {:?}\nexpected: {:?}", got.map_err(|e| code(&e)), want)))
}

struct W {
    dir: Scratch,
}

fn read_int(w: &W, g: &GeneralContext, text: &str, t: &mut Tally) -> Result<Result<Interaction, E>, Failure> {
    let f = w.dir.file("i.hif");
    std::fs::write(&f, text).unwrap();
    t.validated += 1;
    guarded(|| parse_hif_file(g, &f)).map_err(|p| fail("panic", text, format!("panic: {}", p)))
}

fn comps_of(c: CoLocalizations, m: Vec<Vec<BTreeSet<TraceAction>>>) -> Comps {
    if c.locs_lf_ids.len() != m.len() {
        return vec![(c.locs_lf_ids.iter().flatten().cloned().collect(), m.into_iter().flatten().collect()), (BTreeSet::new(), vec![])];
    }
    c.locs_lf_ids.into_iter().zip(m).collect()
}

fn read_mu(w: &W, g: &GeneralContext, text: &str, t: &mut Tally) -> Result<Result<Comps, E>, Failure> {
    let f = w.dir.file("t.htf");
    std::fs::write(&f, text).unwrap();
    t.validated += 1;
    let r = guarded(|| parse_htf_file(g, &f)).map_err(|p| fail("panic", text, format!("panic: {}", p)))?;
    Ok(r.map(|(c, m)| comps_of(c, m)))
}

/// I01: what is written is read back
fn hif_round_trip(i: &Interaction, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let want = flatten(i);
    let f = w.dir.file("w.hif");
    for n in names_sets() {
        let g = ctx_of(&n);
        t.states += 1;
        guarded(|| interaction_to_hif(std::path::Path::new(&f), &g, i)).map_err(|p| fail("panic", &show(i), format!("panic: {}", p)))?;
        let text = std::fs::read_to_string(&f).unwrap();
        let r = read_int(w, &g, &text, t)?;
        t.transitions += 1;
        match r {
            Err(e) => return Err(fail("unreadable", &text, format!("written for {}: {:?}", show(i), e))),
            Ok(x) => {
                if flatten(&x) != want {
                    return Err(fail("changed", &text, format!("written for {}\nread back as {}", show(i), show(&x))));
                }
                // writing what was read gives the same text again
                guarded(|| interaction_to_hif(std::path::Path::new(&f), &g, &x)).map_err(|p| fail("panic", &show(&x), format!("panic: {}", p)))?;
                t.transitions += 1;
                let again = read_int(w, &g, &std::fs::read_to_string(&f).unwrap(), t)?;
                if again.map(|y| flatten(&y) != want).unwrap_or(true) {
                    return Err(fail("changed", &text, format!("written for {}, changed at the second round trip", show(i))));
                }
            }
        }
    }
    Ok(())
}

/// I02: every way to write an interaction down
fn hif_reading(i: &Interaction, small: bool, w: &W, t: &mut Tally) -> Result<(), Failure> {
    for (k, n) in names_sets().iter().enumerate() {
        let g = ctx_of(n);
        for nary in [false, true] {
            let toks = tokens(i, n, nary);
            if read_hif(&toks, n) != Ref::Ok(i.clone()) {
                panic!("the reference reader does not read {:?}", toks);
            }
            let texts = layouts(&toks, !(k == 0 || (small && k < 4)));
            for x in texts {
                t.states += 1;
                t.transitions += toks.len() as u64;
                agree(&x, read_int(w, &g, &x, t)?, &Ref::Ok(i.clone()))?;
            }
        }
    }
    Ok(())
}

fn hif_alphabet() -> Vec<String> {
    s(&["a", "o", "m", "alt", "g", "zz", "∅", "strict", "seq", "par", "and", "coreg", "sync", "loopW", "(", ")", ",", "--", "->", "|", "<", ">", "synch", "asynch", "!", "?", "{", "}", ";", "1"])
}

/// I05: texts at one edit of a well-formed one
fn hif_malformed(i: &Interaction, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names { lf: s(&["a", "o", "c", "d", "e"]), ms: s(&["m", "alt", "n"]), gt: s(&["g", "h"]) };
    let g = ctx_of(&n);
    let all = hif_alphabet();
    for nary in [false, true] {
        let toks = tokens(i, &n, nary);
        t.states += 1;
        let al = if nary && !thorough() { s(&["a", "zz", "(", ",", ")"]) } else { all.clone() };
        for e in edits(&toks, &al) {
            t.transitions += 1;
            let want = read_hif(&e, &n);
            t.bump(match want {
                Ref::Ok(_) => "well-formed",
                Ref::Syntax => "not in the grammar",
                Ref::Err(_) => "badly named",
            });
            let text = e.join(" ");
            agree(&text, read_int(w, &g, &text, t)?, &want)?;
        }
    }
    Ok(())
}

/// six actions, in order
fn six() -> Vec<TraceAction> {
    let mut v = vec![em(0, 0), em(0, 1), rc(1, 0), rc(2, 2), em(2, 2), rc(1, 1)];
    v.sort();
    v
}

/// every action of a signature, in order
fn every(lfs: usize, mss: usize) -> Vec<TraceAction> {
    let mut v = vec![];
    for l in 0..lfs {
        for m in 0..mss {
            v.push(em(l, m));
            v.push(rc(l, m));
        }
    }
    v.sort();
    v
}

fn hif_universe(id: &str, th: bool) -> Multi {
    let mut all = atoms_single(3, 2);
    all.extend(atoms_comm(3, 1, true));
    all.extend(atoms_exotic());
    for sync in [false, true] {
        all.push(a_rc(&[], 0, sync));
        all.push(a_rc(&[2, 0, 1], 1, sync));
        all.push(a_rc_gate(0, &[1], 0, sync));
        all.push(a_rc_gate(1, &[0, 2], 1, sync));
        all.push(a_rc_gate(1, &[], 0, sync));
        all.push(a_em_mixed(0, 1, &[1], &[0], false, sync));
        all.push(a_em_mixed(1, 0, &[0], &[1, 0], true, sync));
        all.push(a_em_mixed(2, 1, &[2, 1], &[], true, sync));
        all.push(a_em_mixed(0, 2, &[], &[0, 1], true, sync));
    }
    let ops = vec![
        Op::Strict, Op::Seq, Op::Alt, Op::Par, Op::And,
        Op::CoReg(vec![0]), Op::CoReg(vec![2, 0, 1]), Op::CoReg(vec![0, 2]),
        Op::Sync(vec![em(0, 0)]), Op::Sync(vec![em(0, 1), rc(2, 0)]), Op::Sync({
            let mut v = vec![em(0, 0), em(1, 0), rc(0, 0)];
            v.sort();
            v
        }),
    ];
    let few = vec![a_empty(), a_comm(0, 0, &[1], false), a_rc(&[1], 1, true)];
    let three = vec![a_empty(), a_em(0, 1)];
    let mut parts = vec![Universe::new("1 leaf, all action forms, <=2 loops", 3, 3, all.clone(), 1, vec![], 0, 2, false)];
    if id == "I05" {
        parts.push(Universe::new("2 leaves", 3, 3, few.clone(), 2, ops.clone(), 0, 1, false));
        parts.push(Universe::new("3 leaves", 3, 3, vec![a_em(0, 1)], 3, ops.clone(), 0, 0, false));
        // lists longer than elsewhere
        let long = vec![a_comm(2, 0, &[3, 0, 4, 1], false), a_rc(&[4, 3, 0, 1, 2], 1, true), a_em_mixed(4, 0, &[3, 1, 2], &[1, 0], false, false)];
        parts.push(Universe::new("5 lifelines, all targets", 5, 3, long, 1, vec![], 0, 0, false));
        let lops = vec![Op::CoReg(vec![2, 0, 3, 1]), Op::CoReg(vec![4, 2, 0, 3, 1]), Op::Sync(six())];
        parts.push(Universe::new("2 leaves, long lists of operators", 5, 3, vec![a_em(0, 1)], 2, lops, 0, 0, false));
        if th {
            parts.push(Universe::new("2 leaves, all action forms", 3, 3, all, 2, vec![Op::Seq, Op::CoReg(vec![2, 0, 1])], 0, 0, false));
        }
    } else {
        parts.push(Universe::new("2 leaves, all action forms", 3, 3, if id == "I01" || th { all.clone() } else { few.clone() }, 2, ops.clone(), 0, if th { 1 } else { 0 }, false));
        parts.push(Universe::new("2 leaves, <=2 loops", 3, 3, few.clone(), 2, ops.clone(), 1, 2, false));
        parts.push(Universe::new("2 leaves, large synchronizations", 3, 3, few.clone(), 2, vec![Op::Sync(six()), Op::Sync(every(3, 3))], 0, 0, false));
        parts.push(Universe::new("3 leaves", 3, 3, three.clone(), 3, ops.clone(), 0, if th { 1 } else { 0 }, false));
        if id == "I01" || th {
            parts.push(Universe::new("4 leaves", 3, 3, vec![a_em(0, 1)], 4, ops.clone(), 0, 0, false));
        }
    }
    Multi { parts }
}

fn set_partitions(n: usize) -> Vec<Vec<BTreeSet<usize>>> {
    // with every order of the components
    fn rec(rest: &BTreeSet<usize>, cur: &mut Vec<BTreeSet<usize>>, out: &mut Vec<Vec<BTreeSet<usize>>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        let v: Vec<usize> = rest.iter().cloned().collect();
        for mask in 1..(1usize << v.len()) {
            let c: BTreeSet<usize> = v.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|x| *x.1).collect();
            let r: BTreeSet<usize> = rest.difference(&c).cloned().collect();
            cur.push(c);
            rec(&r, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(&(0..n).collect(), &mut vec![], &mut out);
    out
}

fn letters_on(c: &BTreeSet<usize>, mss: usize) -> Vec<BTreeSet<TraceAction>> {
    let mut acts = vec![];
    for l in c {
        for m in 0..mss {
            acts.push(em(*l, m));
            acts.push(rc(*l, m));
        }
    }
    let mut v: Vec<BTreeSet<TraceAction>> = acts.iter().map(|a| vec![a.clone()].into_iter().collect()).collect();
    let l0 = *c.iter().next().unwrap();
    if mss > 1 {
        // one lifeline, two messages
        for (x, y) in [(em(l0, 0), em(l0, 1)), (rc(l0, 0), rc(l0, 1)), (em(l0, 1), rc(l0, 0))] {
            v.push(vec![x, y].into_iter().collect());
        }
        v.push(acts.iter().cloned().collect());
    }
    let first: Vec<&TraceAction> = acts.iter().filter(|a| a.ms_id == 0).collect();
    for (i, a) in first.iter().enumerate() {
        for b in &first[i + 1..] {
            v.push(vec![(*a).clone(), (*b).clone()].into_iter().collect());
        }
    }
    if first.len() > 2 {
        v.push(first.iter().map(|a| (*a).clone()).collect());
    }
    v
}

/// I03: written multi-traces are read back
fn htf_round_trip(p: &[BTreeSet<usize>], missing: &BTreeSet<usize>, max: usize, total: usize, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let ls: Vec<Vec<BTreeSet<TraceAction>>> = p.iter().map(|c| letters_on(c, 2)).collect();
    let sets = names_sets();
    let ctxs: Vec<GeneralContext> = sets.iter().map(ctx_of).collect();
    let f = w.dir.file("w.htf");
    let mut mu: Vec<Vec<BTreeSet<TraceAction>>> = p.iter().map(|_| vec![]).collect();
    let mut count = 0usize;
    fn rec(k: usize, left: usize, max: usize, ls: &[Vec<BTreeSet<TraceAction>>], mu: &mut Vec<Vec<BTreeSet<TraceAction>>>, f: &mut dyn FnMut(&Vec<Vec<BTreeSet<TraceAction>>>) -> Result<(), Failure>) -> Result<(), Failure> {
        if k == ls.len() {
            return f(mu);
        }
        rec(k + 1, left, max, ls, mu, f)?;
        if left > 0 && mu[k].len() < max {
            for x in &ls[k] {
                mu[k].push(x.clone());
                rec_same(k, left - 1, max, ls, mu, f)?;
                mu[k].pop();
            }
        }
        Ok(())
    }
    fn rec_same(k: usize, left: usize, max: usize, ls: &[Vec<BTreeSet<TraceAction>>], mu: &mut Vec<Vec<BTreeSet<TraceAction>>>, f: &mut dyn FnMut(&Vec<Vec<BTreeSet<TraceAction>>>) -> Result<(), Failure>) -> Result<(), Failure> {
        rec(k, left, max, ls, mu, f)
    }
    let mut one = |mu: &Vec<Vec<BTreeSet<TraceAction>>>| -> Result<(), Failure> {
        count += 1;
        let n = &sets[count % sets.len()];
        let g = &ctxs[count % sets.len()];
        t.states += 1;
        t.transitions += mu.iter().map(|x| x.len() as u64).sum::<u64>();
        let c = CoLocalizations::new(p.to_vec());
        guarded(|| write_multi_trace_into_file(std::path::Path::new(&f), g, &c, mu)).map_err(|p| fail("panic", &format!("{:?}", mu), format!("panic: {}", p)))?;
        let text = std::fs::read_to_string(&f).unwrap();
        let mut want: Comps = p.iter().cloned().zip(mu.iter().cloned()).collect();
        for l in missing {
            want.push((vec![*l].into_iter().collect(), vec![]));
        }
        match read_mu(w, g, &text, t)? {
            Err(e) => return Err(fail("unreadable", &text, format!("written for {:?} {:?} with names {:?}: {:?}", p, mu, n.lf, e))),
            Ok(x) => {
                if x != want {
                    return Err(fail("changed", &text, format!("written for {:?} {:?}\nread back as {:?}", p, mu, x)));
                }
            }
        }
        Ok(())
    };
    rec(0, total, max, &ls, &mut mu, &mut one)
}

fn htf_names() -> Names {
    Names { lf: s(&["a", "b", "c"]), ms: s(&["m", "any"]), gt: s(&["g"]) }
}

fn htf_traces(max: usize) -> Vec<Vec<String>> {
    let letters: Vec<Vec<String>> = vec![s(&["a", "!", "m"]), s(&["b", "?", "any"]), s(&["c", "!", "m"]), s(&["{", "a", "!", "m", ",", "b", "!", "m", "}"]), s(&["{", "c", "?", "m", ",", "c", "?", "m", "}"]), s(&["{", "a", "!", "any", ",", "a", "!", "m", ",", "a", "?", "m", "}"])];
    let mut out: Vec<Vec<String>> = vec![vec![]];
    let mut level: Vec<Vec<String>> = vec![vec![]];
    for d in 0..max {
        let mut next = vec![];
        for x in &level {
            for l in &letters {
                let mut y = x.clone();
                if d > 0 {
                    y.push(".".into());
                }
                y.extend(l.iter().cloned());
                next.push(y);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

fn htf_canals(max: usize) -> Vec<Vec<String>> {
    let heads: Vec<Vec<String>> = vec![
        s(&["[", "a", "]"]), s(&["[", "b", "]"]), s(&["[", "a", ",", "b", "]"]), s(&["[", "c", ",", "a", "]"]), s(&["[", "b", ",", "b", "]"]),
        s(&["[", "#any", "]"]), s(&["[", "#all", "]"]), s(&["[", "zz", "]"]),
    ];
    let mut v = vec![];
    for h in &heads {
        for x in htf_traces(max) {
            let mut c = h.clone();
            c.extend(x);
            v.push(c);
        }
    }
    v
}

fn htf_doc(canals: &[Vec<String>], braces: bool, trailing: bool) -> Vec<String> {
    let mut v = vec![];
    if braces {
        v.push("{".to_string());
    }
    for (k, c) in canals.iter().enumerate() {
        if k > 0 {
            v.push(";".into());
        }
        v.extend(c.iter().cloned());
    }
    if trailing {
        v.push(";".into());
    }
    if braces {
        v.push("}".into());
    }
    v
}

fn htf_check(toks: &[String], full_layout: u8, mutate: bool, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let n = htf_names();
    let g = ctx_of(&n);
    let want = read_htf(toks, &n);
    t.bump(match want {
        Ref::Ok(_) => "well-formed",
        Ref::Syntax => "not in the grammar",
        Ref::Err(_) => "badly named or ill-defined",
    });
    let texts = match full_layout {
        0 => vec![toks.join(" ")],
        1 => layouts(toks, true),
        _ => layouts(toks, false),
    };
    for x in texts {
        t.states += 1;
        t.transitions += toks.len() as u64;
        agree(&x, read_mu(w, &g, &x, t)?, &want)?;
    }
    if mutate {
        let al = s(&["a", "b", "zz", "m", "!", "?", ".", ",", ";", "{", "}", "[", "]", "#any", "#all", "(", "1"]);
        for e in edits(toks, &al) {
            t.states += 1;
            t.transitions += 1;
            let want = read_htf(&e, &n);
            t.bump(match want {
                Ref::Ok(_) => "well-formed",
                Ref::Syntax => "not in the grammar",
                Ref::Err(_) => "badly named or ill-defined",
            });
            let text = e.join(" ");
            agree(&text, read_mu(w, &g, &text, t)?, &want)?;
        }
    }
    Ok(())
}

/// I06: signatures
fn hsf_check(toks: &[String], layout: bool, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let f = w.dir.file("s.hsf");
    let want = read_hsf(toks);
    t.bump(match want {
        Ref::Ok(_) => "well-formed",
        Ref::Syntax => "not in the grammar",
        Ref::Err(_) => "ill-defined",
    });
    let probe = s(&["x", "y", "zz", "o", "m"]);
    for text in if layout { layouts(toks, false) } else { vec![toks.join(" ")] } {
        t.states += 1;
        t.transitions += toks.len() as u64;
        t.validated += 1;
        std::fs::write(&f, &text).unwrap();
        let r = guarded(|| parse_hsf_file(&f)).map_err(|p| fail("panic", &text, format!("panic: {}", p)))?;
        match (&r, &want) {
            (Ok(g), Ref::Ok(n)) => {
                let mut bad = g.get_lf_num() != n.lf.len() || g.get_ms_num() != n.ms.len() || g.get_all_lfs_ids() != (0..n.lf.len()).collect();
                for (k, x) in n.lf.iter().enumerate() {
                    bad |= g.get_lf_id(x) != Some(k) || g.get_lf_name(k).ok().as_ref() != Some(x);
                }
                for (k, x) in n.ms.iter().enumerate() {
                    bad |= g.get_ms_id(x) != Some(k) || g.get_ms_name(k).ok().as_ref() != Some(x);
                }
                for (k, x) in n.gt.iter().enumerate() {
                    bad |= g.get_gt_id(x) != Some(k) || g.get_gt_name(k).ok().as_ref() != Some(x);
                }
                bad |= g.get_lf_name(n.lf.len()).is_ok() || g.get_ms_name(n.ms.len()).is_ok() || g.get_gt_name(n.gt.len()).is_ok();
                for x in &probe {
                    bad |= g.get_lf_id(x).is_some() != n.lf.contains(x) || g.get_ms_id(x).is_some() != n.ms.contains(x) || g.get_gt_id(x).is_some() != n.gt.contains(x);
                }
                if bad {
                    return Err(fail("content", &text, format!("expected lifelines {:?}, messages {:?}, gates {:?}", n.lf, n.ms, n.gt)));
                }
            }
            (Err(E::MatchError(_)), Ref::Syntax) => {}
            (Err(e), Ref::Err(l)) if l.contains(&code(e)) => {}
            _ => {
                return Err(fail("verdict", &text, format!("read: {:?}\nexpected: {}", r.err(), match want {
                    Ref::Ok(_) => "well-formed".to_string(),
                    Ref::Syntax => "not in the grammar".to_string(),
                    Ref::Err(l) => format!("{:?}", l),
                })));
            }
        }
    }
    Ok(())
}

fn hsf_docs(th: bool) -> Vec<(Vec<String>, bool)> {
    // names of one section
    let pool = ["x", "y", "o"];
    let mut lists: Vec<Vec<String>> = vec![];
    for a in pool {
        lists.push(s(&[a]));
        for b in pool {
            lists.push(s(&[a, b]));
            for c in pool {
                lists.push(s(&[a, b, c]));
            }
        }
    }
    let sec = |k: &str, l: &[String], trailing: bool| -> Vec<String> {
        let mut v = vec![k.to_string(), "{".to_string()];
        for (i, x) in l.iter().enumerate() {
            if i > 0 {
                v.push(";".into());
            }
            v.push(x.clone());
        }
        if trailing {
            v.push(";".into());
        }
        v.push("}".into());
        v
    };
    let kinds = ["@message", "@lifeline", "@gate"];
    let mut docs = vec![(vec![], true)];
    // every sequence of at most 4 sections (duplicates included), small lists
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut level = seqs.clone();
    for _ in 0..4 {
        let mut next = vec![];
        for x in &level {
            for k in 0..3 {
                let mut y = x.clone();
                y.push(k);
                next.push(y);
            }
        }
        seqs.extend(next.iter().cloned());
        level = next;
    }
    let small = [s(&["x"]), s(&["y", "x"]), s(&["x", "x", "o"])];
    for q in &seqs {
        for code in 0..(3usize.pow(q.len().min(3) as u32)) {
            for trailing in [false, true] {
                let mut v = vec![];
                let mut c = code;
                for k in q {
                    v.extend(sec(kinds[*k], &small[c % 3], trailing));
                    c /= 3;
                }
                docs.push((v, q.len() <= 2 || th));
            }
        }
    }
    for k in kinds {
        for l in &lists {
            for trailing in [false, true] {
                docs.push((sec(k, l, trailing), true));
            }
        }
    }
    docs
}

mod hcf {
    use super::*;
    use hibou::core::general_context::GeneralContext;
    use hibou::io::input::hcf::ana::interface::parse_hcf_file_for_ana;
    use hibou::io::input::hcf::ana::options::HibouAnalyzeOptions;
    use hibou::io::input::hcf::canon::interface::parse_hcf_file_for_canonize;
    use hibou::io::input::hcf::canon::options::HibouCanonizeOptions;
    use hibou::io::input::hcf::explo::interface::parse_hcf_file_for_explore;
    use hibou::io::input::hcf::explo::options::HibouExploreOptions;
    use hibou::process::ana::filter::filter::{AnalysisFilter, AnalysisFilterCriterion};
    use hibou::process::ana::param::anakind::{AnalysisKind, SimulationActionCriterion as SA, SimulationConfiguration, SimulationLoopCriterion as SL};
    use hibou::process::ana::param::param::LocalAnalysisLifelineSelectionPolicy;
    use hibou::process::ana::verdict::global::AnalysisGlobalVerdict as V;
    use hibou::process::explo::filter::filter::{ExplorationFilter, ExplorationFilterCriterion};
    use graph_process_manager_core::handler::filter::AbstractFilter;

    /// what a configuration must amount to
    #[derive(Clone, Debug, PartialEq)]
    pub struct M {
        pub strategy: String,
        /// 0: depth, 1: loops, 2: nodes
        pub filters: Vec<(u8, u32)>,
        /// emission, reception, multi_rdv, loop, elim, simu; None: not stated
        pub prio: [Option<i32>; 6],
        pub rnd: bool,
        pub memo: bool,
        pub kind: AnalysisKind,
        pub locana: Option<(bool, Option<u32>, u32)>,
        pub por: bool,
        pub goal: Option<bool>,
        pub loggers: usize,
        /// generated traces need every path: no memoization
        pub tracegen: bool,
        pub search_all: bool,
        pub err: Option<String>,
    }

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Cmd {
        Explore,
        Analyze,
        Canonize,
    }
    pub const CMDS: [Cmd; 3] = [Cmd::Explore, Cmd::Analyze, Cmd::Canonize];

    pub fn section(c: Cmd) -> &'static str {
        match c {
            Cmd::Explore => "@explore_option",
            Cmd::Analyze => "@analyze_option",
            Cmd::Canonize => "@canonize_option",
        }
    }

    /// without a section, and where a section starts from
    pub fn defaults(c: Cmd, in_section: bool) -> M {
        let mut m = M {
            strategy: "BFS".into(),
            filters: vec![],
            prio: [Some(0), Some(0), Some(0), Some(0), None, None],
            rnd: false,
            memo: false,
            kind: AnalysisKind::Prefix,
            locana: Some((false, None, 1)),
            por: false,
            goal: Some(false),
            loggers: 0,
            tracegen: false,
            search_all: false,
            err: None,
        };
        match c {
            Cmd::Explore => {
                if !in_section {
                    m.filters.push((1, 1));
                }
            }
            Cmd::Analyze => {
                m.memo = true;
                if !in_section {
                    m.strategy = "DFS".into();
                }
            }
            Cmd::Canonize => {}
        }
        m
    }

    pub struct Opt {
        pub text: Vec<String>,
        pub eff: Box<dyn Fn(&mut M) + Sync + Send>,
        /// the commands whose section takes it in the grammar
        pub cmds: Vec<Cmd>,
        /// first of its spellings
        pub main: bool,
    }

    fn words(t: &str) -> Vec<String> {
        // tokens of an option are separated by blanks here
        t.split_whitespace().map(|x| x.to_string()).collect()
    }

    /// integers that no option can hold
    const HUGE: [&str; 2] = ["4294967296", "99999999999999999999999"];

    /// where filters are compared
    fn probes() -> Vec<u32> {
        let mut v: Vec<u32> = (0..16).collect();
        v.extend([99, 100, 101, 2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295]);
        v
    }

    pub fn options() -> Vec<Opt> {
        use Cmd::*;
        let mut v: Vec<Opt> = vec![];
        let trues = ["⊤", "true", "True", "TRUE"];
        let falses = ["⊥", "false", "False", "FALSE"];
        let bools: Vec<(String, bool, bool)> = trues.iter().map(|x| (x.to_string(), true, *x == "true")).chain(falses.iter().map(|x| (x.to_string(), false, *x == "false"))).collect();
        fn add(v: &mut Vec<Opt>, t: String, main: bool, cmds: &[Cmd], eff: impl Fn(&mut M) + Sync + Send + 'static) {
            v.push(Opt { text: words(&t), eff: Box::new(eff), cmds: cmds.to_vec(), main });
        }
        let general = [Explore, Analyze, Canonize];
        let only_loggers = "HcfSetupError";
        for (k, l) in [("BFS", ["BreadthFS", "Breadth First Search", "BFS"]), ("DFS", ["DepthFS", "Depth First Search", "DFS"]), ("HCS", ["HighCoverageS", "High Coverage Search", "HCS"])] {
            for (n, x) in l.iter().enumerate() {
                // these spellings with spaces are single words of the grammar
                let mut t = words("strategy =");
                t.push(x.to_string());
                v.push(Opt { text: t, main: n == 2, cmds: general.to_vec(), eff: Box::new(move |m: &mut M| m.strategy = k.to_string()) });
            }
        }
        let filt = [(0u8, vec!["max_depth", "max depth"]), (1, vec!["max_loop_depth", "max loop depth"]), (2, vec!["max_node_number", "max node number"])];
        for (k, l) in &filt {
            for (n, x) in l.iter().enumerate() {
                for d in [0u32, 3, 12, 100, 2147483648, 4294967295] {
                    let k = *k;
                    add(&mut v, format!("filters = [ {} = {} ]", x, d), n == 0 && d == 3, &general, move |m| m.filters = vec![(k, d)]);
                }
                for d in HUGE {
                    add(&mut v, format!("filters = [ {} = {} ]", x, d), false, &[Explore, Analyze], |m| m.err = Some("HcfSetupError".into()));
                }
            }
            for (k2, l2) in &filt {
                let (k, k2) = (*k, *k2);
                add(&mut v, format!("filters = [ {} = 2 , {} = 5 , ]", l[0], l2[1]), k == 0 && k2 == 1, &general, move |m| m.filters = vec![(k, 2), (k2, 5)]);
            }
        }
        add(&mut v, "filters = [ max_depth = 1 , max_loop_depth = 2 , max_node_number = 3 ]".into(), false, &general, |m| m.filters = vec![(0, 1), (1, 2), (2, 3)]);
        for (k, x) in ["emission", "reception", "multi_rdv", "loop", "elim", "simu"].iter().enumerate() {
            for d in ["0", "1", "- 1", "2", "-2", "17", "-9", "-10", "- 17", "100", "-100", "2147483647", "-2147483647"] {
                let val: i32 = d.replace(' ', "").parse().unwrap();
                // elimination and simulation steps only exist in analyses
                let eff = move |m: &mut M| {
                    m.rnd = false;
                    m.prio = [Some(0), Some(0), Some(0), Some(0), None, None];
                    m.prio[k] = Some(val);
                };
                let bad = |m: &mut M| m.err = Some("ProcessPriorityError".into());
                add(&mut v, format!("priorities = [ {} = {} ]", x, d), d == "- 1", if k < 4 { &[Explore, Analyze] } else { &[Analyze] }, eff);
                if k >= 4 {
                    add(&mut v, format!("priorities = [ {} = {} ]", x, d), d == "2", &[Explore], bad);
                }
            }
            for d in ["2147483648", "-99999999999", "4294967296"] {
                add(&mut v, format!("priorities = [ {} = {} ]", x, d), false, if k < 4 { &[Explore, Analyze] } else { &[Analyze] }, |m| m.err = Some("HcfSetupError".into()));
            }
            for (k2, y) in ["emission", "reception", "multi_rdv", "loop"].iter().enumerate() {
                if k < 4 {
                    for (b, bv, main) in &bools {
                        let (bv, main) = (*bv, *main);
                        add(&mut v, format!("priorities = [ {} = 2 , randomize = {} , {} = -3 , ]", x, b, y), main && k == 3 && k2 == 1, &[Explore, Analyze], move |m| {
                            m.rnd = bv;
                            m.prio = [Some(0), Some(0), Some(0), Some(0), None, None];
                            m.prio[k] = Some(2);
                            m.prio[k2] = Some(-3);
                        });
                    }
                }
            }
        }
        for x in ["simpl", "flush", "invert", "deduplicate", "factorize", "defactorize"] {
            add(&mut v, format!("priorities = [ {} = 1 ]", x), false, &[Explore, Analyze], |m| m.err = Some("ProcessPriorityError".into()));
        }
        for (b, bv, main) in &bools {
            let bv = *bv;
            add(&mut v, format!("memoize = {}", b), *main, &general, move |m| m.memo = bv);
            add(&mut v, format!("priorities = [ randomize = {} ]", b), *main, &[Explore, Analyze], move |m| {
                m.rnd = bv;
                m.prio = [Some(0), Some(0), Some(0), Some(0), None, None];
            });
            for x in ["partial_order_reduction", "por", "POR"] {
                add(&mut v, format!("{} = {}", x, b), *main && x == "por", &[Analyze], move |m| m.por = bv);
            }
            add(&mut v, format!("search_all = {}", b), *main, &[Canonize], move |m| m.search_all = bv);
        }
        add(&mut v, "search_all".into(), true, &[Canonize], |m| m.search_all = true);
        for (x, k) in [("accept", AnalysisKind::Accept), ("prefix", AnalysisKind::Prefix), ("eliminate", AnalysisKind::Eliminate)] {
            add(&mut v, format!("analysis_kind = {}", x), true, &[Analyze], move |m| m.kind = k.clone());
        }
        let sim = |b, r, mu, l, a| AnalysisKind::Simulate(SimulationConfiguration::new(b, r, mu, l, a));
        add(&mut v, "analysis_kind = simulate".into(), true, &[Analyze], move |m| m.kind = sim(false, false, false, SL::MaxDepth, SA::None));
        for (b, bv, main) in &bools {
            let bv = *bv;
            for (n, x) in ["slice", "before", "preamble"].iter().enumerate() {
                add(&mut v, format!("analysis_kind = simulate [ {} = {} ]", x, b), *main && n == 0, &[Analyze], move |m| m.kind = sim(bv, false, false, SL::MaxDepth, SA::None));
            }
            for (n, x) in ["multiply", "resized", "dependent"].iter().enumerate() {
                add(&mut v, format!("analysis_kind = simulate [ {} = {} ]", x, b), *main && n == 0, &[Analyze], move |m| m.kind = sim(false, false, bv, SL::MaxDepth, SA::None));
            }
            for (n, x) in ["reset", "reinitialize"].iter().enumerate() {
                add(&mut v, format!("analysis_kind = simulate [ {} = {} ]", x, b), *main && n == 0, &[Analyze], move |m| m.kind = sim(false, bv, false, SL::MaxDepth, SA::None));
            }
        }
        let loops: Vec<(&str, SL)> = vec![("loop num = 4", SL::SpecificNum(4)), ("loop num = 0", SL::SpecificNum(0)), ("loop max_num", SL::MaxNum), ("loop max num", SL::MaxNum),
            ("loop num = 4294967295", SL::SpecificNum(4294967295)), ("loop max_depth", SL::MaxDepth), ("loop max depth", SL::MaxDepth), ("loop none", SL::None), ("loop None", SL::None), ("loop NONE", SL::None)];
        for d in HUGE {
            for x in ["loop", "act"] {
                add(&mut v, format!("analysis_kind = simulate [ {} num = {} ]", x, d), false, &[Analyze], |m| m.err = Some("HcfSetupError".into()));
            }
            for x in ["lookup", "modulo"] {
                add(&mut v, format!("local_analysis = [ {} = {} ]", x, d), false, &[Analyze], |m| m.err = Some("HcfSetupError".into()));
            }
        }
        let acts: Vec<(&str, SA)> = vec![("act num = 7", SA::SpecificNum(7)), ("act num = 70", SA::SpecificNum(70)), ("act max_num", SA::MaxNumOutsideLoops), ("act max num", SA::MaxNumOutsideLoops), ("act none", SA::None), ("act None", SA::None), ("act NONE", SA::None)];
        for (l, lv) in &loops {
            let lv2 = lv.clone();
            add(&mut v, format!("analysis_kind = simulate [ {} ]", l), false, &[Analyze], move |m| m.kind = sim(false, false, false, lv2.clone(), SA::None));
            for (a, av) in &acts {
                for (k, (x, b, r, mu)) in [("", false, false, false), (", before = true", true, false, false), (", reset = true , multiply = false ,", false, true, false), (", multiply = true , before = true", true, false, true)].iter().enumerate() {
                    let (lv, av, b, r, mu) = (lv.clone(), av.clone(), *b, *r, *mu);
                    add(&mut v, format!("analysis_kind = simulate [ {} , {} {} ]", a, l, x), k == 3 && *l == "loop max_num" && *a == "act num = 7", &[Analyze], move |m| m.kind = sim(b, r, mu, lv.clone(), av.clone()));
                }
            }
        }
        for (a, av) in &acts {
            let av = av.clone();
            add(&mut v, format!("analysis_kind = simulate [ {} ]", a), false, &[Analyze], move |m| m.kind = sim(false, false, false, SL::MaxDepth, av.clone()));
        }
        add(&mut v, "goal = Pass".into(), true, &[Analyze], |m| m.goal = Some(true));
        add(&mut v, "goal = WeakPass".into(), true, &[Analyze], |m| m.goal = Some(false));
        for x in ["none", "None", "NONE"] {
            add(&mut v, format!("goal = {}", x), x == "none", &[Analyze], |m| m.goal = None);
            add(&mut v, format!("local_analysis = {}", x), x == "none", &[Analyze], |m| m.locana = None);
        }
        for (x, all) in [("all", true), ("All", true), ("ALL", true), ("dirty", false), ("Dirty", false), ("DIRTY", false)] {
            add(&mut v, format!("local_analysis = [ select = {} ]", x), x == "all", &[Analyze], move |m| m.locana = Some((all, None, 1)));
            for (d, dv) in [("none", None), ("0", Some(0)), ("4", Some(4))] {
                for dn in ["max_look_ahead_depth", "max depth", "lookahead", "lookup"] {
                    add(&mut v, format!("local_analysis = [ {} = {} ]", dn, d), false, &[Analyze], move |m| m.locana = Some((false, dv, 1)));
                    for mn in ["modulo_each_X_steps", "modulo"] {
                        add(&mut v, format!("local_analysis = [ {} = {} , select = {} , {} = 3 ]", dn, d, x, mn), x == "all" && d == "4" && dn == "lookup" && mn == "modulo", &[Analyze], move |m| m.locana = Some((all, dv, 3)));
                    }
                }
            }
        }
        // loggers
        let logs: Vec<(String, usize, bool, bool, Option<&str>)> = {
            // text, number, graphic only, has nfait, error
            let mut l: Vec<(String, usize, bool, bool, Option<&str>)> = vec![];
            l.push(("graphic".into(), 1, true, false, None));
            let mut gopts: Vec<String> = vec![];
            for x in ["png", "svg", "format = png", "format = svg", "horizontal", "vertical", "layout = horizontal", "layout = vertical", "parent_folder = f", "parent = f", "folder = f", "output = n", "name = n"] {
                gopts.push(x.into());
            }
            for x in ["draw_sd", "draw_tt", "draw_sub_processes", "draw_legend"] {
                for (b, _, _) in &bools {
                    gopts.push(format!("{} = {}", x, b));
                }
            }
            for x in &gopts {
                l.push((format!("graphic [ {} ]", x), 1, true, false, None));
                l.push((format!("graphic [ svg , {} , ]", x), 1, true, false, None));
            }
            l.push(("tracegen".into(), 1, false, false, None));
            let mut topts: Vec<(String, Option<&str>)> = vec![];
            for x in ["generation = accepted", "partition = discrete", "partition = trivial", "partition = { ( a ) }", "partition = { ( b , a ) , ( c ) }", "partition = { ( c ) , ( a ) , ( b ) }",
                "parent_folder = f", "parent = f", "folder = f", "name_prefix = n", "trace_prefix = n", "prefix = n"] {
                topts.push((x.into(), None));
            }
            for x in ["avoid_duplicates", "prevent_duplicates", "no_duplicates"] {
                for (b, _, _) in &bools {
                    topts.push((format!("{} = {}", x, b), None));
                }
            }
            topts.push(("partition = { ( a , b ) , ( b ) }".into(), Some("NonDisjointTraceComponents")));
            topts.push(("partition = { ( a , zz ) }".into(), Some("MissingLifelineDeclarationError(\"zz\")")));
            for (x, e) in &topts {
                l.push((format!("tracegen [ {} ]", x), 1, false, false, *e));
                l.push((format!("tracegen [ prefix = q , {} , ]", x), 1, false, false, *e));
            }
            l.push(("nfait".into(), 1, false, true, None));
            l.push(("nfa".into(), 1, false, true, None));
            l.push(("graphic , tracegen".into(), 2, false, false, None));
            l.push(("graphic [ svg ] , graphic , graphic [ name = z ] ,".into(), 3, true, false, None));
            l.push(("tracegen [ folder = f ] , nfait , graphic".into(), 3, false, true, None));
            l
        };
        for (k, (x, n, gr, nf, e)) in logs.into_iter().enumerate() {
            for c in CMDS {
                let e: Option<String> = match c {
                    Canonize if !gr => Some(only_loggers.into()),
                    Analyze if nf && e.is_none() => Some("HcfSetupError".into()),
                    _ => e.map(|y| y.to_string()),
                };
                let tg = x.contains("tracegen");
                let main = k == 0 || x == "nfait" || x == "graphic , tracegen";
                add(&mut v, format!("loggers = [ {} ]", x), main, &[c], move |m| match &e {
                    Some(y) => m.err = Some(y.clone()),
                    None => {
                        m.loggers = n;
                        m.tracegen = tg;
                    }
                });
            }
        }
        // two words of the grammar contain a blank
        for (x, d, e) in [("exact depth", 2, None), ("modulo depth", 3, None), ("exact depth", 0, None), ("modulo depth", 0, Some("HcfSetupError")), ("exact depth", 4294967296u64, Some("HcfSetupError")), ("modulo depth", 99999999999, Some("HcfSetupError"))] {
            let mut t = words("loggers = [ tracegen [ generation =");
            t.push(x.into());
            t.push(format!("{}", d));
            t.extend(words("] ]"));
            let e = e.map(|y: &str| y.to_string());
            v.push(Opt { text: t, main: false, cmds: vec![Explore, Analyze], eff: Box::new(move |m: &mut M| match &e {
                Some(y) => m.err = Some(y.clone()),
                None => {
                    m.loggers = 1;
                    m.tracegen = true;
                }
            }) });
        }
        // not for canonization
        for o in v.iter_mut() {
            if o.cmds.contains(&Canonize) && !["loggers", "search_all"].contains(&o.text[0].as_str()) {
                o.cmds.retain(|c| *c != Canonize);
            }
        }
        for (t, main) in [("strategy = DFS", true), ("filters = [ max_depth = 1 ]", false), ("priorities = [ simpl = 1 ]", false), ("memoize = true", false)] {
            add(&mut v, t.into(), main, &[Canonize], |m| m.err = Some("HcfSetupError".into()));
        }
        v
    }

    fn s_strategy(x: &graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy) -> String {
        use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy::*;
        match x {
            BFS => "BFS",
            DFS => "DFS",
            HCS => "HCS",
        }
        .to_string()
    }

    fn same_prio(got: &[i32], want: &[Option<i32>]) -> bool {
        got.iter().zip(want).all(|(g, w)| w.map(|x| x == *g).unwrap_or(true))
    }

    fn probe_e(f: &dyn AbstractFilter<ExplorationFilterCriterion, hibou::process::explo::filter::elim::ExplorationFilterEliminationKind>) -> Vec<bool> {
        let mut v = vec![];
        for d in probes() {
            v.push(f.apply_filter(d, 0, &ExplorationFilterCriterion { loop_depth: 0 }).is_some());
            v.push(f.apply_filter(0, d, &ExplorationFilterCriterion { loop_depth: 0 }).is_some());
            v.push(f.apply_filter(0, 0, &ExplorationFilterCriterion { loop_depth: d }).is_some());
        }
        v
    }
    fn probe_a(f: &dyn AbstractFilter<AnalysisFilterCriterion, hibou::process::ana::filter::elim::AnalysisFilterEliminationKind>) -> Vec<bool> {
        let mut v = vec![];
        for d in probes() {
            v.push(f.apply_filter(d, 0, &AnalysisFilterCriterion { loop_depth: 0 }).is_some());
            v.push(f.apply_filter(0, d, &AnalysisFilterCriterion { loop_depth: 0 }).is_some());
            v.push(f.apply_filter(0, 0, &AnalysisFilterCriterion { loop_depth: d }).is_some());
        }
        v
    }

    fn diff_e(o: &HibouExploreOptions, m: &M) -> Option<&'static str> {
        let want: Vec<Vec<bool>> = m.filters.iter().map(|(k, n)| probe_e(&match k {
            0 => ExplorationFilter::MaxProcessDepth(*n),
            1 => ExplorationFilter::MaxLoopInstanciation(*n),
            _ => ExplorationFilter::MaxNodeNumber(*n),
        })).collect();
        let got: Vec<Vec<bool>> = o.filters.iter().map(|f| probe_e(f.as_ref())).collect();
        let p = &o.priorities.specific;
        if s_strategy(&o.strategy) != m.strategy {
            return Some("strategy");
        }
        if got != want {
            return Some("filters");
        }
        if !same_prio(&[p.emission, p.reception, p.multi_rdv, p.in_loop], &m.prio[..4]) {
            return Some("priorities");
        }
        if o.priorities.randomize != m.rnd {
            return Some("randomize");
        }
        if o.use_memoization != (m.memo && !m.tracegen) {
            return Some("memoize");
        }
        if o.loggers.len() != m.loggers {
            return Some("loggers");
        }
        None
    }

    fn diff_a(o: &HibouAnalyzeOptions, m: &M) -> Option<&'static str> {
        let want: Vec<Vec<bool>> = m.filters.iter().map(|(k, n)| probe_a(&match k {
            0 => AnalysisFilter::MaxProcessDepth(*n),
            1 => AnalysisFilter::MaxLoopInstanciation(*n),
            _ => AnalysisFilter::MaxNodeNumber(*n),
        })).collect();
        let got: Vec<Vec<bool>> = o.filters.iter().map(|f| probe_a(f.as_ref())).collect();
        let p = &o.priorities.specific;
        if s_strategy(&o.strategy) != m.strategy {
            return Some("strategy");
        }
        if got != want {
            return Some("filters");
        }
        if !same_prio(&[p.emission, p.reception, p.multi_rdv, p.in_loop, p.elim, p.simu], &m.prio) {
            return Some("priorities");
        }
        if o.priorities.randomize != m.rnd {
            return Some("randomize");
        }
        if o.use_memoization != (m.memo && !m.tracegen) {
            return Some("memoize");
        }
        if o.loggers.len() != m.loggers {
            return Some("loggers");
        }
        if o.ana_param.ana_kind != m.kind {
            return Some("analysis_kind");
        }
        if o.ana_param.partial_order_reduction != m.por {
            return Some("partial_order_reduction");
        }
        let l = o.ana_param.locana.as_ref().map(|l| (l.on_lifeline_policy == LocalAnalysisLifelineSelectionPolicy::SelectAll, l.max_look_ahead_depth, l.modulo_each_X_steps));
        if l != m.locana {
            return Some("local_analysis");
        }
        let g = o.goal.as_ref().map(|g| matches!(g, V::Pass));
        if g != m.goal || matches!(&o.goal, Some(x) if !matches!(x, V::Pass | V::WeakPass)) {
            return Some("goal");
        }
        None
    }

    fn diff_c(o: &HibouCanonizeOptions, m: &M) -> Option<&'static str> {
        if o.search_all != m.search_all {
            return Some("search_all");
        }
        if o.loggers.len() != m.loggers {
            return Some("loggers");
        }
        None
    }

    pub fn check(c: Cmd, text: &str, m: &M, g: &GeneralContext, w: &W, t: &mut Tally) -> Result<(), Failure> {
        let f = w.dir.file("c.hcf");
        std::fs::write(&f, text).unwrap();
        t.validated += 1;
        t.states += 1;
        t.transitions += 1;
        let pan = |p: String| fail("panic", text, format!("panic: {}", p));
        let r: Result<Option<&'static str>, E> = match c {
            Cmd::Explore => guarded(|| parse_hcf_file_for_explore(g, &f).map(|o| diff_e(&o, m))).map_err(pan)?,
            Cmd::Analyze => guarded(|| parse_hcf_file_for_ana(g, &f).map(|o| diff_a(&o, m))).map_err(pan)?,
            Cmd::Canonize => guarded(|| parse_hcf_file_for_canonize(g, &f).map(|o| diff_c(&o, m))).map_err(pan)?,
        };
        match (r, &m.err) {
            (Ok(None), None) => Ok(()),
            (Err(e), Some(x)) if &code(&e) == x => Ok(()),
            (Ok(Some(d)), None) => Err(fail(d, text, format!("{:?}: wrong {}; expected {:?}", c, d, m))),
            (r, _) => Err(fail("verdict", text, format!("{:?}: read {:?}; expected {:?}", c, r.map_err(|e| format!("{:?}", e)), m))),
        }
    }

    pub fn section_text(c: Cmd, opts: &[&Opt], sep: &str, trailing: bool) -> String {
        let o: Vec<String> = opts.iter().map(|x| x.text.join(sep)).collect();
        format!("{}{sep}{{{sep}{}{}{sep}}}", section(c), o.join(&format!("{sep};{sep}")), if trailing { ";" } else { "" })
    }

    pub fn apply(c: Cmd, opts: &[&Opt]) -> M {
        let mut m = defaults(c, true);
        for o in opts {
            if m.err.is_none() {
                (o.eff)(&mut m);
            }
        }
        m
    }

    /// nothing but a result may come out of any text
    pub fn no_panic(c: Cmd, text: &str, g: &GeneralContext, w: &W, t: &mut Tally) -> Result<(), Failure> {
        let f = w.dir.file("c.hcf");
        std::fs::write(&f, text).unwrap();
        t.validated += 1;
        t.transitions += 1;
        let r = guarded(|| match c {
            Cmd::Explore => parse_hcf_file_for_explore(g, &f).is_ok(),
            Cmd::Analyze => parse_hcf_file_for_ana(g, &f).is_ok(),
            Cmd::Canonize => parse_hcf_file_for_canonize(g, &f).is_ok(),
        });
        match r {
            Ok(true) => t.bump("edited texts accepted"),
            Ok(false) => t.bump("edited texts rejected"),
            Err(p) => return Err(fail("panic", text, format!("panic: {}", p))),
        }
        Ok(())
    }
}

/// files that are missing or have another extension
fn wrong_files(t: &mut Tally) -> Result<(), Failure> {
    let d = Scratch::new();
    let g = ctx_of(&htf_names());
    for ext in ["hsf", "hif", "htf", "hcf", "txt"] {
        for there in [false, true] {
            let f = d.file(&format!("x.{}", ext));
            let _ = std::fs::remove_file(&f);
            if there {
                std::fs::write(&f, "").unwrap();
            }
            let results: Vec<(&str, Option<String>)> = vec![
                ("hsf", parse_hsf_file(&f).err().map(|e| code(&e))),
                ("hif", parse_hif_file(&g, &f).err().map(|e| code(&e))),
                ("htf", parse_htf_file(&g, &f).err().map(|e| code(&e))),
                ("hcf", hibou::io::input::hcf::explo::interface::parse_hcf_file_for_explore(&g, &f).err().map(|e| code(&e))),
                ("hcf", hibou::io::input::hcf::ana::interface::parse_hcf_file_for_ana(&g, &f).err().map(|e| code(&e))),
                ("hcf", hibou::io::input::hcf::canon::interface::parse_hcf_file_for_canonize(&g, &f).err().map(|e| code(&e))),
            ];
            for (k, e) in results {
                t.states += 1;
                t.validated += 1;
                let want = if k != ext {
                    Some("FileFormatError")
                } else if !there {
                    Some("FileError")
                } else if k == "hif" {
                    Some("MatchError")
                } else {
                    None
                };
                if e.as_deref() != want {
                    return Err(fail("file", &f, format!("{} reader on .{} ({}): {:?}, expected {:?}", k, ext, if there { "empty" } else { "missing" }, e, want)));
                }
            }
        }
    }
    Ok(())
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let make = || W { dir: Scratch::new() };
    let q = Quiet::new();
    match id.as_str() {
        "I01" | "I02" | "I05" => {
            let u = hif_universe(&id, th);
            r.bounds = u.describe();
            let n = u.size();
            r.sweep(n, make, |idx, w, t| {
                let (part, term) = u.decode(idx);
                let term = match term {
                    Some(x) => x,
                    None => return Ok(()),
                };
                t.items += 1;
                if idx % 97 == 5 {
                    t.sample(|| show(&term));
                }
                t.bump("terms");
                match id.as_str() {
                    "I01" => hif_round_trip(&term, w, t),
                    "I02" => hif_reading(&term, part == 0, w, t),
                    _ => hif_malformed(&term, w, t),
                }
            });
        }
        "I03" => {
            let mut ps: Vec<(Vec<BTreeSet<usize>>, BTreeSet<usize>)> = vec![];
            for p in set_partitions(3) {
                ps.push((p.clone(), BTreeSet::new()));
                // components left out are completed when read
                for k in 0..p.len() {
                    if p.len() > 1 && p[k].len() == 1 {
                        let mut x = p.clone();
                        let c = x.remove(k);
                        ps.push((x, c));
                    }
                }
            }
            ps.sort();
            ps.dedup();
            let (max, total) = if th { (3, 4) } else { (2, 3) };
            r.bounds = format!("3 lifelines, {} ordered (partial) partitions, <={} letters per component, <={} letters in total, letters of one action, and sets of actions", ps.len(), max, total);
            let n = ps.len() as u64;
            r.sweep(n, make, |idx, w, t| {
                let (p, m) = &ps[idx as usize];
                t.items += 1;
                t.sample(|| format!("{:?}", p));
                htf_round_trip(p, m, max, if p.len() == 1 { total.min(3) } else { total }, w, t)
            });
        }
        "I04" => {
            let one = htf_canals(2);
            let short = htf_canals(1);
            let bare = htf_traces(3);
            let shorter: Vec<Vec<String>> = htf_canals(1).into_iter().filter(|c| c.len() <= 8).collect();
            r.bounds = format!("bare traces of <=3 letters; 1 component out of {}; 2 out of {} and {}; 3 out of {}; braces or not, trailing separators, all layouts; all single-token edits of the small ones", one.len(), one.len(), short.len(), shorter.len());
            let (n0, n1, n2) = (bare.len() as u64, one.len() as u64 * 4, (one.len() * short.len()) as u64);
            let n3 = (shorter.len() as u64).pow(3);
            r.sweep(n0 + n1 + n2 + n3 + 1, make, |idx, w, t| {
                t.items += 1;
                let mut i = idx;
                if i < n0 {
                    let x = &bare[i as usize];
                    t.sample(|| x.join(" "));
                    return htf_check(x, 2, x.len() <= if th { 19 } else { 11 }, w, t);
                }
                i -= n0;
                if i < n1 {
                    let x = &one[(i / 4) as usize];
                    let k = i % 4;
                    let d = htf_doc(&[x.clone()], k != 0 && k != 3, k >= 2);
                    return htf_check(&d, 2, k == 1 || th, w, t);
                }
                i -= n1;
                if i < n2 {
                    let (a, b) = (&one[(i % one.len() as u64) as usize], &short[(i / one.len() as u64) as usize]);
                    let d = htf_doc(&[a.clone(), b.clone()], true, i % 2 == 0);
                    return htf_check(&d, 1, th && a.len() + b.len() < 14, w, t);
                }
                i -= n2;
                if i < n3 {
                    let k = shorter.len() as u64;
                    let d = htf_doc(&[shorter[(i % k) as usize].clone(), shorter[(i / k % k) as usize].clone(), shorter[(i / k / k) as usize].clone()], true, false);
                    return htf_check(&d, 0, false, w, t);
                }
                // no component at all
                for d in [s(&["{", "}"]), s(&["{", ";", "}"]), vec![]] {
                    htf_check(&d, 2, true, w, t)?;
                }
                wrong_files(t)
            });
        }
        "I06" => {
            let docs = hsf_docs(th);
            r.bounds = format!("{} signatures (sequences of <=4 sections, all lists of <=3 names out of 3), all layouts with one differing gap, all single-token edits", docs.len());
            let al = s(&["x", "y", "zz", "@message", "@lifeline", "@gate", "{", "}", ";", ",", "1"]);
            let n = docs.len() as u64;
            r.sweep(n, make, |idx, w, t| {
                t.items += 1;
                let (d, more) = &docs[idx as usize];
                t.sample(|| d.join(" "));
                hsf_check(d, *more, w, t)?;
                if *more {
                    for e in edits(d, &al) {
                        hsf_check(&e, false, w, t)?;
                    }
                }
                Ok(())
            });
        }
        "I07" => {
            let opts = hcf::options();
            let mains: Vec<usize> = opts.iter().enumerate().filter(|x| x.1.main).map(|x| x.0).collect();
            r.bounds = format!("{} spellings of options ({} principal ones), each alone in every layout, principal ones with every spelling and in {}, for each command, with the sections of other commands before and after; all single-token edits of the principal ones", opts.len(), mains.len(), if th { "triples" } else { "pairs" });
            let g = ctx_of(&htf_names());
            let na = opts.len() as u64;
            let nb = mains.len() as u64;
            r.sweep(na + 1, make, |idx, w, t| {
                t.items += 1;
                if idx == na {
                    // no section, empty file, two sections
                    for c in hcf::CMDS {
                        for other in hcf::CMDS {
                            let o = opts.iter().find(|o| o.main && o.cmds.contains(&other)).unwrap();
                            let sec = hcf::section_text(other, &[o], " ", false);
                            let mut m = hcf::defaults(c, false);
                            if other != c {
                                hcf::check(c, &sec, &m, &g, w, t)?;
                            } else {
                                m.err = Some("HsfSetupError".into());
                                hcf::check(c, &format!("{}\n{}", sec, sec), &m, &g, w, t)?;
                            }
                        }
                        hcf::check(c, "", &hcf::defaults(c, false), &g, w, t)?;
                        let mut m = hcf::defaults(c, true);
                        m.err = Some("MatchError".into());
                        hcf::check(c, &format!("{}{{}}", hcf::section(c)), &m, &g, w, t)?;
                    }
                    return wrong_files(t);
                }
                let o = &opts[idx as usize];
                t.sample(|| o.text.join(" "));
                for c in hcf::CMDS {
                    if !o.cmds.contains(&c) {
                        continue;
                    }
                    let m = hcf::apply(c, &[o]);
                    for trailing in [false, true] {
                        for sep in seps() {
                            // words of options must not run into each other
                            let glued = o.text.windows(2).any(|x| is_wordy(&x[0]) && is_wordy(&x[1]));
                            if sep.is_empty() && glued {
                                continue;
                            }
                            hcf::check(c, &hcf::section_text(c, &[o], sep, trailing), &m, &g, w, t)?;
                        }
                    }
                    // together with one principal option, before and after, and other sections around
                    for k in &mains {
                        let p = &opts[*k];
                        if !p.cmds.contains(&c) {
                            continue;
                        }
                        for pair in [[o, p], [p, o]] {
                            let sec = hcf::section_text(c, &pair, " ", false);
                            let m = hcf::apply(c, &pair);
                            hcf::check(c, &sec, &m, &g, w, t)?;
                            if o.main {
                                for other in hcf::CMDS {
                                    if other != c && p.cmds.contains(&other) {
                                        let x = hcf::section_text(other, &[p], " ", true);
                                        hcf::check(c, &format!("{}\n{}", x, sec), &m, &g, w, t)?;
                                        hcf::check(c, &format!("{}\n{}", sec, x), &m, &g, w, t)?;
                                    }
                                }
                            }
                        }
                        if th && o.main {
                            for j in &mains {
                                let z = &opts[*j];
                                if z.cmds.contains(&c) {
                                    let m = hcf::apply(c, &[o, p, z]);
                                    hcf::check(c, &hcf::section_text(c, &[o, p, z], " ", true), &m, &g, w, t)?;
                                }
                            }
                        }
                    }
                    if o.main || th {
                        let mut toks = vec![hcf::section(c).to_string(), "{".into()];
                        toks.extend(o.text.iter().cloned());
                        toks.push("}".into());
                        let al = s(&["a", "zz", "=", "[", "]", "{", "}", "(", ")", ",", ";", "1", "0", "-", "true", "none", "max", "depth", "num", "@explore_option", "strategy", "graphic", "simulate"]);
                        for e in edits(&toks, &al) {
                            hcf::no_panic(c, &e.join(" "), &g, w, t)?;
                        }
                    }
                }
                Ok(())
            });
            let _ = nb;
        }
        _ => panic!("unknown property"),
    }
    drop(q);
    std::process::exit(r.finish());
}

fn is_wordy(x: &str) -> bool {
    x.chars().all(|c| c.is_alphanumeric() || c == '_' || c == ' ')
}
