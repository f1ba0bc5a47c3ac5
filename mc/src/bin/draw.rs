//! Checks of the drawings and of the commands that draw: P02.., C03.. (see /verif/DESIGN.md).
use std::collections::{BTreeSet, HashMap};
use std::sync::Mutex;

use mc::cli::{Cli, Quiet};
use mc::dot::*;
use mc::hif::{tree_of, Names};
use mc::lang::*;
use mc::petri::read_machines;
use mc::report::*;
use mc::scratch::Scratch;
use mc::sd;
use mc::universe::*;

use hibou::core::language::syntax::action::{EmissionAction, EmissionTargetRef, ReceptionAction, CommunicationSynchronicity};
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};
use hibou::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
use hibou::plantuml::automata_product::to_plant_uml_ap;

struct W {
    dir: Scratch,
    _stubs: Scratch,
    cli: Cli,
    lx: Lx,
}

fn fail(key: &str, i: &Interaction, what: String) -> Failure {
    Failure { key: key.into(), detail: format!("interaction: {}\n{}", show(i), what) }
}

fn targets(e: &EmissionAction) -> Vec<usize> {
    e.targets.iter().filter_map(|t| if let EmissionTargetRef::Lifeline(l) = t { Some(*l) } else { None }).collect()
}

/// some lifeline sends to itself: not drawn
fn to_itself(i: &Interaction) -> bool {
    match i {
        Interaction::Emission(e) => targets(e).contains(&e.origin_lf_id),
        Interaction::Loop(_, a) => to_itself(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => to_itself(a) || to_itself(b),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// P02: state machines of lifelines

/// what a lifeline does in an interaction; loops repeat their whole content
fn part(i: &Interaction, l: usize) -> Interaction {
    let bin = |a: &Interaction, b: &Interaction| (Box::new(part(a, l)), Box::new(part(b, l)));
    match i {
        Interaction::Emission(e) => {
            let t = targets(e);
            if e.origin_lf_id == l {
                Interaction::Emission(EmissionAction::new(l, e.ms_id, CommunicationSynchronicity::Asynchronous, vec![]))
            } else if t.contains(&l) {
                Interaction::Reception(ReceptionAction::new(None, e.ms_id, CommunicationSynchronicity::Asynchronous, vec![l]))
            } else {
                Interaction::Empty
            }
        }
        Interaction::Reception(r) if r.recipients.contains(&l) => Interaction::Reception(ReceptionAction::new(None, r.ms_id, CommunicationSynchronicity::Asynchronous, vec![l])),
        Interaction::Alt(a, b) => {
            let (a, b) = bin(a, b);
            Interaction::Alt(a, b)
        }
        Interaction::Par(a, b) => {
            let (a, b) = bin(a, b);
            Interaction::Par(a, b)
        }
        Interaction::Strict(a, b) | Interaction::Seq(a, b) => {
            let (a, b) = bin(a, b);
            Interaction::Strict(a, b)
        }
        Interaction::Loop(_, a) => Interaction::Loop(LoopKind::SStrictSeq, Box::new(part(a, l))),
        _ => Interaction::Empty,
    }
}

fn machines(i: &Interaction, lfs: usize, mss: usize, k: usize, cli: bool, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(lfs, mss);
    let text = if cli {
        w.dir.clear();
        std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
        std::fs::write(w.dir.file("i.hif"), n.hif(i)).unwrap();
        t.bump("runs_of_the_tool");
        let o = w.cli.run(&["puml_ap", "s.hsf", "i.hif"]);
        if o.panicked() {
            return Err(fail("panic", i, o.err));
        }
        std::fs::read_to_string(w.dir.file("s_ap.puml")).map_err(|e| fail("file", i, e.to_string()))?
    } else {
        let f = w.dir.file("x.puml");
        guarded(|| to_plant_uml_ap(&f, "x", i, &gen_ctx(lfs, mss))).map_err(|p| fail("panic", i, p))?;
        std::fs::read_to_string(&f).unwrap()
    };
    t.validated += 1;
    let got = read_machines(&text).map_err(|e| fail("malformed", i, format!("{}\n{}", e, text)))?;
    let names: BTreeSet<String> = got.iter().map(|x| x.0.clone()).collect();
    let want: BTreeSet<String> = n.lf.iter().map(|x| format!("lf_{}", x)).collect();
    if names != want || got.len() != lfs {
        return Err(fail("machines", i, format!("{}\nthe machines {:?}, one for each of {:?} expected", text, names, want)));
    }
    for (l, name) in n.lf.iter().enumerate() {
        let net = &got.iter().find(|x| x.0 == format!("lf_{}", name)).unwrap().1;
        let p = part(i, l);
        let k = if has_loop(&p) { k } else { acts(&p) };
        let have = net.words(k, &mut t.states, &mut t.transitions);
        let lang = w.lx.lang(&p, k);
        let want: BTreeSet<Vec<String>> = lang.iter().map(|x| w.lx.letters_of(*x).iter().map(|y| n.letter(y)[1..].to_string()).collect()).collect();
        if have != want {
            let a: Vec<_> = want.difference(&have).take(3).collect();
            let b: Vec<_> = have.difference(&want).take(3).collect();
            return Err(fail("language", i, format!("{}\nmachine of lifeline {}: missing {:?}, unexpected {:?}", text, name, a, b)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C04: the automata written by a command

fn only_strict_loops(i: &Interaction) -> bool {
    match i {
        Interaction::Loop(k, a) => *k == LoopKind::SStrictSeq && only_strict_loops(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => only_strict_loops(a) && only_strict_loops(b),
        _ => true,
    }
}

fn number(o: &str, line: &str) -> Option<usize> {
    let l = o.lines().find(|l| l.contains(line))?;
    l.rsplit(' ').next()?.trim().parse().ok()
}

fn glosem(i: &Interaction, lfs: usize, mss: usize, k: usize, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(lfs, mss);
    w.dir.clear();
    std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
    std::fs::write(w.dir.file("j.hif"), n.hif(i)).unwrap();
    t.bump("runs_of_the_tool");
    let o = w.cli.run(&["glosem", "s.hsf", "j.hif"]);
    if o.panicked() {
        return Err(fail("panic", i, o.err));
    }
    let read = |name: &str, w: &W, t: &mut Tally| -> Result<(Aut, String), Failure> {
        let text = std::fs::read_to_string(w.dir.file(name)).map_err(|e| fail("file", i, format!("{}: {}", name, e)))?;
        t.validated += 1;
        let a = read_automaton(&text).map_err(|e| fail("malformed", i, format!("{}: {}\n{}", name, e, text)))?;
        Ok((a, text))
    };
    let (orig, text) = read("j_orig_nfa.dot", w, t)?;
    let (min, mtext) = read("j_mini_dfa.dot", w, t)?;
    for (what, a) in [("orig NFA", &orig), ("min DFA", &min)] {
        if number(&o.text, what) != Some(a.trans.len()) {
            return Err(fail("count", i, format!("{} of {} states\n{}", what, a.trans.len(), o.text)));
        }
    }
    // against the denotation
    let k = if has_loop(i) { k } else { acts(i) };
    let lang = w.lx.lang(i, k);
    let mut al: BTreeSet<Letter> = BTreeSet::new();
    for x in &lang {
        al.extend(w.lx.letters_of(*x));
    }
    let al: Vec<Letter> = al.into_iter().collect();
    let mut got: Lang = vec![];
    for x in orig.words(k, &mut t.states) {
        let mut ls = vec![];
        for y in &x {
            match letter_of(y, &al, &|l| n.letter(l)) {
                Some(l) => ls.push(l.clone()),
                None => return Err(fail("letter", i, format!("{}\nno behaviour has the letter {}", text, y))),
            }
        }
        got.push(w.lx.word_of(&ls));
    }
    got.sort_unstable();
    if (only_strict_loops(i) && got != lang) || !is_subset(&got, &lang) {
        return Err(fail("language", i, format!("{}\n{}", text, w.lx.diff("automaton", &got, "language", &lang))));
    }
    // among themselves, exactly
    if let Some(x) = orig.differ(&min, &mut t.states) {
        return Err(fail("minimal", i, format!("{}\nand\n{}\ndiffer on {:?}", text, mtext, x)));
    }
    if !min.deterministic() || min.trans.len() != orig.minimal() {
        return Err(fail("minimal", i, format!("{}\nis not the smallest deterministic automaton: it has {} states", mtext, orig.minimal())));
    }
    for (l, name) in n.lf.iter().enumerate() {
        let hidden = min.erase(&|x| x.trim_start_matches('{').trim_end_matches('}').split(',').any(|a| a.trim().starts_with(&format!("{}!", name)) || a.trim().starts_with(&format!("{}?", name))));
        let (hid, htext) = read(&format!("j_hid_{}_nfa.dot", l), w, t)?;
        let (closed, ctext) = read(&format!("j_hid_{}_closed_nfa.dot", l), w, t)?;
        if let Some(x) = hidden.differ(&hid, &mut t.states) {
            return Err(fail("hidden", i, format!("{}\nwithout lifeline {}, and\n{}\ndiffer on {:?}", mtext, name, htext, x)));
        }
        if let Some(x) = hid.differ(&closed, &mut t.states) {
            return Err(fail("closed", i, format!("{}\nand\n{}\ndiffer on {:?}", htext, ctext, x)));
        }
        if closed.silent() || (hidden.erase(&|_| false).silent() != hid.silent()) {
            return Err(fail("silent", i, format!("{}\n{}", htext, ctext)));
        }
    }
    t.transitions += (orig.trans.iter().flatten().count() + min.trans.iter().flatten().count()) as u64;
    // the drawing that puts them together
    let all = std::fs::read_to_string(w.dir.file("j_glosem.dot")).map_err(|e| fail("file", i, format!("j_glosem.dot: {}", e)))?;
    let images: Vec<&str> = all.split("image=\"").skip(1).filter_map(|x| x.split('"').next()).collect();
    let drawn = |x: &str| {
        let stem = x.trim_end_matches(".png");
        w.dir.dir.join(x).is_file() || w.dir.dir.join(format!("{}.dot", stem)).is_file()
    };
    if images.len() != 3 + 2 * lfs || !images.iter().all(|x| drawn(x)) {
        return Err(fail("together", i, format!("{}\nrefers to drawings that do not exist", all)));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P03: drawings of interactions

/// what a diagram cannot show: which gate, in which order several receive, how an operator is nested in itself
fn meaning(i: &Interaction, n: &Names) -> String {
    fn flat(i: &Interaction, op: &str, n: &Names, out: &mut Vec<String>) {
        match (i, op) {
            (Interaction::Strict(a, b), "strict") | (Interaction::Seq(a, b), "seq") | (Interaction::Alt(a, b), "alt") | (Interaction::Par(a, b), "par") => {
                flat(a, op, n, out);
                flat(b, op, n, out);
            }
            (Interaction::CoReg(l, a, b), o) if o == format!("coreg{:?}", l) => {
                flat(a, op, n, out);
                flat(b, op, n, out);
            }
            (Interaction::Sync(s, a, b), o) if o == format!("sync{:?}", s) => {
                flat(a, op, n, out);
                flat(b, op, n, out);
            }
            _ => out.push(meaning(i, n)),
        }
    }
    let op = match i {
        Interaction::Strict(..) => "strict".to_string(),
        Interaction::Seq(..) => "seq".to_string(),
        Interaction::Alt(..) => "alt".to_string(),
        Interaction::Par(..) => "par".to_string(),
        Interaction::CoReg(l, ..) => format!("coreg{:?}", l),
        Interaction::Sync(s, ..) => format!("sync{:?}", s),
        Interaction::And(a, b) => return format!("and({},{})", meaning(a, n), meaning(b, n)),
        Interaction::Loop(k, a) => return format!("{:?}({})", k, meaning(a, n)),
        Interaction::Empty => return "o".to_string(),
        Interaction::Emission(e) => {
            let t: BTreeSet<usize> = targets(e).into_iter().collect();
            return format!("{}{:?}{}{:?}{}", e.origin_lf_id, e.synchronicity, e.ms_id, t, e.targets.len() > t.len());
        }
        Interaction::Reception(r) => {
            let t: BTreeSet<usize> = r.recipients.iter().cloned().collect();
            return format!("{}{:?}{}{:?}", r.origin_gt_id.is_some(), r.synchronicity, r.ms_id, t);
        }
    };
    let mut v = vec![];
    flat(i, &op, n, &mut v);
    format!("{}({})", op, v.join(","))
}

/// some operator has no action in it: its frame is around nothing
fn hollow(i: &Interaction) -> bool {
    match i {
        Interaction::Loop(_, a) => acts(i) == 0 || hollow(a),
        Interaction::Seq(a, b) => hollow(a) || hollow(b),
        Interaction::Strict(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => acts(i) == 0 || hollow(a) || hollow(b),
        _ => false,
    }
}

/// some co-region is on a lifeline that does nothing at all: no bracket shows it
fn absent(i: &Interaction, lfs: &BTreeSet<usize>) -> bool {
    match i {
        Interaction::CoReg(l, a, b) => l.iter().any(|x| !lfs.contains(x)) || absent(a, lfs) || absent(b, lfs),
        Interaction::Loop(_, a) => absent(a, lfs),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => absent(a, lfs) || absent(b, lfs),
        _ => false,
    }
}

fn lifelines(i: &Interaction, out: &mut BTreeSet<usize>) {
    match i {
        Interaction::Empty => (),
        Interaction::Emission(e) => {
            out.insert(e.origin_lf_id);
            out.extend(targets(e));
        }
        Interaction::Reception(r) => out.extend(r.recipients.iter().cloned()),
        Interaction::Loop(_, a) => lifelines(a, out),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => {
            lifelines(a, out);
            lifelines(b, out);
        }
    }
}

type Seen = Mutex<HashMap<(usize, u64), (u64, String)>>;

fn hash(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn drawing(i: &Interaction, part: usize, n: &Names, command: bool, seen: &Seen, w: &mut W, t: &mut Tally) -> Result<(), Failure> {
    let gc = n.ctx();
    w.dir.clear();
    let dir = w.dir.dir.to_str().unwrap().to_string();
    t.states += 1;
    t.transitions += 1;
    let read = |w: &W, f: &str| std::fs::read(w.dir.file(f)).map_err(|e| fail("file", i, format!("{}: {}", f, e)));
    // as a diagram
    guarded(|| draw_interaction(&gc, i, &InteractionGraphicalRepresentation::AsSequenceDiagram, &dir, &dir, &"x".to_string())).map_err(|e| fail("crash", i, e))?;
    let png = read(w, "x.png")?;
    let img = image::load_from_memory(&png).map_err(|e| fail("file", i, e.to_string()))?.to_rgb8();
    let sheet = sd::diagram(i, n);
    if let Some(d) = sheet.differs(&img) {
        return Err(fail("diagram", i, d));
    }
    t.validated += 1;
    let mut l = BTreeSet::new();
    lifelines(i, &mut l);
    if !sheet.cut && !hollow(i) && !absent(i, &l) {
        let m = meaning(i, n);
        let mut s = seen.lock().unwrap();
        let (h, k) = ((part, hash(&png)), hash(&m));
        match s.get(&h) {
            Some((k2, other)) if *k2 != k => return Err(fail("same", i, format!("has the same diagram as {}", other))),
            Some(_) => t.bump("diagrams_of_several_terms"),
            None => {
                s.insert(h, (k, show(i)));
            }
        }
    }
    // as a term (the steps of analyses, see L02, show terms as well)
    if part / 2 > 1 && !command {
        return Ok(());
    }
    guarded(|| draw_interaction(&gc, i, &InteractionGraphicalRepresentation::AsTerm, &dir, &dir, &"y".to_string())).map_err(|e| fail("crash", i, e))?;
    let dot = String::from_utf8_lossy(&read(w, "y.dot")?).into_owned();
    let tree = read_drawing(&dot).and_then(|d| d.tree()).map_err(|e| fail("tree", i, format!("{}\n{}", e, dot)))?;
    if tree != tree_of(i, n) {
        return Err(fail("tree", i, format!("the tree drawn is {}\n{}", tree, dot)));
    }
    // (the concrete syntax here has lifelines before gates)
    if !command || show(i).contains("(gate") {
        return Ok(());
    }
    // the command
    std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
    std::fs::write(w.dir.file("j.hif"), n.hif(i)).unwrap();
    for (args, file, term) in [(vec![], "j_repr.png", false), (vec!["-r", "sd", "-o", "d"], "d.png", false), (vec!["-r", "tt"], "temp/j_repr.dot", true), (vec!["-o", "e.f", "-r", "tt"], "temp/e.f.dot", true)] {
        t.bump("runs_of_the_tool");
        let mut v = vec!["draw", "s.hsf", "j.hif"];
        v.extend(&args);
        let o = w.cli.run(&v);
        if o.panicked() {
            return Err(fail("crash", i, o.err));
        }
        if read(w, file)? != if term { dot.clone().into_bytes() } else { png.clone() } {
            return Err(fail("command", i, format!("{:?} writes another drawing", args)));
        }
    }
    Ok(())
}

fn universe(id: &str, th: bool) -> Multi {
    let mut parts = vec![];
    match id {
        "P02" => {
            let mut exotic = atoms_single(2, 2);
            exotic.extend(atoms_comm(2, 1, true));
            exotic.extend([a_empty(), a_em_gate(0, 0, 0), a_rc_gate(0, &[1], 0, false), a_rc(&[0, 1], 0, false), a_em_mixed(0, 1, &[1], &[0], false, false), a_em_mixed(1, 0, &[0], &[0], true, true)]);
            let three = vec![a_comm(0, 0, &[1, 2], false), a_comm(2, 1, &[0], true), a_rc(&[1, 2], 0, false)];
            let small = vec![a_empty(), a_em(0, 0), a_comm(0, 1, &[1], false), a_rc(&[0], 0, false)];
            let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par];
            parts.push(Universe::new("1 leaf, all action forms, <=3 loops", 2, 2, exotic.clone(), 1, vec![], 0, 3, false));
            parts.push(Universe::new("2 leaves, all action forms, <=2 loops", 2, 2, exotic, 2, ops.clone(), 0, 2, false));
            parts.push(Universe::new("2 leaves, 3 lifelines, <=1 loop", 3, 2, three, 2, ops.clone(), 0, 1, false));
            parts.push(Universe::new("3 leaves", 2, 2, small.clone(), 3, ops.clone(), 0, if th { 2 } else { 1 }, false));
            parts.push(Universe::new("4 leaves", 2, 2, if th { small } else { vec![a_empty(), a_em(0, 0), a_comm(0, 1, &[1], false)] }, 4, ops.clone(), 0, if th { 1 } else { 0 }, false));
            parts.push(Universe::new("5 leaves", 1, 2, vec![a_em(0, 0), a_rc(&[0], 1, false)], 5, ops[1..].to_vec(), 0, if th { 1 } else { 0 }, false));
        }
        "P03" => {
            let mut all = atoms_single(3, 2);
            all.extend(atoms_comm(3, 1, true));
            all.extend(atoms_exotic());
            all.extend([a_empty(), a_em_gate(0, 0, 0), a_em_gate(1, 1, 0), a_rc_gate(0, &[1], 0, false), a_rc_gate(1, &[0, 2], 0, true), a_em_mixed(0, 1, &[1], &[0], false, false), a_em_mixed(1, 0, &[0], &[0], true, true)]);
            let cr = |l: &[usize]| Op::CoReg(l.to_vec());
            let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, Op::And, cr(&[0]), cr(&[0, 1]), Op::Sync(vec![em(0, 0)]), Op::Sync(vec![em(0, 0), rc(1, 0)])];
            let small = vec![a_empty(), a_em(0, 0), a_rc(&[1], 0, false), a_comm(0, 0, &[1], false), a_comm(1, 1, &[0], true)];
            let three = vec![a_comm(0, 0, &[2], false), a_comm(2, 0, &[1], false), a_rc(&[0, 1], 0, false)];
            parts.push(Universe::new("1 leaf, all action forms, <=3 loops", 3, 2, all.clone(), 1, vec![], 0, 3, false));
            parts.push(Universe::new("2 leaves, all action forms", 3, 2, all, 2, if th { ops.clone() } else { vec![Op::Seq, Op::Alt, cr(&[0])] }, 0, if th { 1 } else { 0 }, false));
            parts.push(Universe::new("2 leaves, <=3 loops", 2, 2, small.clone(), 2, ops.clone(), 0, if th { 3 } else { 2 }, false));
            parts.push(Universe::new("3 leaves, 3 lifelines", 3, 1, three, 3, ops.clone(), 0, if th { 1 } else { 0 }, false));
            parts.push(Universe::new("3 leaves", 2, 2, if th { small.clone() } else { small[..4].to_vec() }, 3, ops.clone(), 0, if th { 1 } else { 0 }, false));
            parts.push(Universe::new("4 leaves", 2, 1, vec![a_em(0, 0), a_comm(1, 0, &[0], false)], 4, if th { ops.clone() } else { ops[..6].to_vec() }, 0, 0, false));
        }
        _ => {
            let mut all = atoms_single(3, 1);
            all.extend(atoms_comm(3, 1, true));
            all.extend(atoms_exotic());
            all.push(a_em_gate(0, 0, 0));
            all.push(a_em_mixed(0, 0, &[1], &[0], false, true));
            let cr = |l: &[usize]| Op::CoReg(l.to_vec());
            let ops = vec![Op::Strict, Op::Seq, Op::Alt, Op::Par, cr(&[0]), Op::Sync(vec![em(0, 0)])];
            let small = vec![a_em(0, 0), a_em(1, 0), a_rc(&[0], 0, false), a_comm(0, 0, &[1], false), a_comm(0, 0, &[1], true), a_comm(1, 1, &[0], true), a_empty()];
            parts.push(Universe::new("1 leaf, all action forms, <=2 loops", 3, 1, all.clone(), 1, vec![], 0, 2, true));
            parts.push(Universe::new("2 leaves, all action forms, no loop", 3, 1, if th { all } else { atoms_comm(3, 1, true) }, 2, ops.clone(), 0, 0, true));
            parts.push(Universe::new("2 leaves, <=2 loops", 2, 2, if th { small.clone() } else { small[2..5].to_vec() }, 2, ops.clone(), 1, if th { 2 } else { 1 }, true));
            parts.push(Universe::new("3 leaves, <=1 loop", 2, 2, if th { vec![a_em(0, 0), a_em(1, 0), a_comm(0, 0, &[1], false)] } else { vec![a_em(0, 0), a_comm(1, 0, &[0], true)] }, 3, ops[..4].to_vec(), 0, 1, true));
        }
    }
    Multi { parts }
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let make = || {
        let (dir, stubs) = (Scratch::new(), Scratch::new());
        W { cli: Cli::with_stubs(&dir.dir, &stubs.dir, &["dot"]), dir, _stubs: stubs, lx: Lx::new() }
    };
    let seen: Seen = Mutex::new(HashMap::new());
    let q = Quiet::new();
    let u = universe(&id, th);
    r.bounds = u.describe();
    let n = u.size();
    r.sweep(n, make, |idx, w, t| {
        if std::env::var("MC_ITEM").map(|x| x != idx.to_string()).unwrap_or(false) {
            return Ok(());
        }
        let (part, term) = u.decode(idx);
        let term = match term {
            Some(x) => x,
            None => return Ok(()),
        };
        if to_itself(&term) || (id != "P03" && acts(&term) > 7) {
            return Ok(());
        }
        t.items += 1;
        if idx % 97 == 5 {
            t.sample(|| show(&term));
        }
        t.bump("terms");
        if w.lx.letters.len() > 150 {
            w.lx = Lx::new();
        }
        let p = &u.parts[part];
        let mut names = Names::std(p.lfs, p.mss);
        names.gt.push("h".into());
        if idx % 2 == 1 {
            // long names make lifelines wide
            names.lf[0] = "lifelineOne".into();
            names.ms[0] = "mess".into();
        }
        match id.as_str() {
            "P02" => machines(&term, p.lfs, p.mss, if th { 5 } else { 4 }, idx % 211 == 0, w, t),
            "P03" => drawing(&term, 2 * part + idx as usize % 2, &names, idx % 97 == 0, &seen, w, t),
            "C04" => glosem(&term, p.lfs, p.mss, if th { 6 } else { 5 }, w, t),
            _ => panic!("unknown property"),
        }
    });
    drop(q);
    std::process::exit(r.finish());
}
