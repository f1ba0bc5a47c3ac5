//! Bounded universes of interaction terms: every term with a given number of leaves, operators,
//! loops and a given signature, up to renaming of lifelines and messages.
use hibou::core::execution::trace::trace::{TraceAction, TraceActionKind};
use hibou::core::general_context::GeneralContext;
use hibou::core::language::involve::involves::InvolvesLifelines;
use hibou::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Strict,
    Seq,
    CoReg(Vec<usize>),
    Alt,
    Par,
    Sync(Vec<TraceAction>),
    /// only syntactic: never executed
    And,
}

#[derive(Clone, Debug)]
pub struct Atom {
    pub int: Interaction,
    pub lfs: Vec<usize>,
    pub ms: Vec<usize>,
}

pub const KINDS: [LoopKind; 4] = [LoopKind::SStrictSeq, LoopKind::HHeadFirstWS, LoopKind::WWeakSeq, LoopKind::PInterleaving];

pub fn em(l: usize, m: usize) -> TraceAction {
    TraceAction::new(l, TraceActionKind::Emission, m)
}
pub fn rc(l: usize, m: usize) -> TraceAction {
    TraceAction::new(l, TraceActionKind::Reception, m)
}

pub fn a_empty() -> Atom {
    Atom { int: Interaction::Empty, lfs: vec![], ms: vec![] }
}
/// emission towards the environment
pub fn a_em(l: usize, m: usize) -> Atom {
    a_comm(l, m, &[], false)
}
pub fn a_em_gate(l: usize, m: usize, g: usize) -> Atom {
    Atom {
        int: Interaction::Emission(EmissionAction::new(l, m, CommunicationSynchronicity::Asynchronous, vec![EmissionTargetRef::Gate(g)])),
        lfs: vec![l],
        ms: vec![m],
    }
}
pub fn a_rc(l: &[usize], m: usize, sync: bool) -> Atom {
    Atom {
        int: Interaction::Reception(ReceptionAction::new(None, m, sy(sync), l.to_vec())),
        lfs: l.to_vec(),
        ms: vec![m],
    }
}
/// reception from a gate
pub fn a_rc_gate(g: usize, l: &[usize], m: usize, sync: bool) -> Atom {
    Atom {
        int: Interaction::Reception(ReceptionAction::new(Some(g), m, sy(sync), l.to_vec())),
        lfs: l.to_vec(),
        ms: vec![m],
    }
}
/// emission towards lifelines and gates
pub fn a_em_mixed(l: usize, m: usize, t: &[usize], g: &[usize], gates_first: bool, sync: bool) -> Atom {
    let mut lfs = vec![l];
    lfs.extend_from_slice(t);
    let mut tg: Vec<EmissionTargetRef> = t.iter().map(|x| EmissionTargetRef::Lifeline(*x)).collect();
    let gs: Vec<EmissionTargetRef> = g.iter().map(|x| EmissionTargetRef::Gate(*x)).collect();
    if gates_first {
        tg.splice(0..0, gs);
    } else {
        tg.extend(gs);
    }
    Atom { int: Interaction::Emission(EmissionAction::new(l, m, sy(sync), tg)), lfs, ms: vec![m] }
}
pub fn a_comm(l: usize, m: usize, t: &[usize], sync: bool) -> Atom {
    let mut lfs = vec![l];
    lfs.extend_from_slice(t);
    Atom {
        int: Interaction::Emission(EmissionAction::new(l, m, sy(sync), t.iter().map(|x| EmissionTargetRef::Lifeline(*x)).collect())),
        lfs,
        ms: vec![m],
    }
}
fn sy(s: bool) -> CommunicationSynchronicity {
    if s { CommunicationSynchronicity::Synchronous } else { CommunicationSynchronicity::Asynchronous }
}

/// emissions and receptions of single lifelines
pub fn atoms_single(lfs: usize, mss: usize) -> Vec<Atom> {
    let mut v = vec![];
    for m in 0..mss {
        for l in 0..lfs {
            v.push(a_em(l, m));
            v.push(a_rc(&[l], m, false));
        }
    }
    v
}

/// point-to-point communications, asynchronous and (optionally) synchronous
pub fn atoms_comm(lfs: usize, mss: usize, sync: bool) -> Vec<Atom> {
    let mut v = vec![];
    for m in 0..mss {
        for l in 0..lfs {
            for t in 0..lfs {
                if t != l {
                    v.push(a_comm(l, m, &[t], false));
                    if sync {
                        v.push(a_comm(l, m, &[t], true));
                    }
                }
            }
        }
    }
    v
}

/// broadcasts, multi receptions, gates, self communications, empty: one message each
pub fn atoms_exotic() -> Vec<Atom> {
    vec![
        a_empty(),
        a_comm(0, 0, &[1, 2], false),
        a_comm(0, 0, &[1, 2], true),
        a_rc(&[0, 1], 0, false),
        a_rc(&[0, 1], 0, true),
        a_comm(0, 0, &[0], false),
        a_em_gate(0, 0, 0),
        a_em_sync(0, 0),
        a_comm(1, 0, &[0, 2], false),
        a_comm(2, 0, &[0, 1], true),
    ]
}
pub fn a_em_sync(l: usize, m: usize) -> Atom {
    a_comm(l, m, &[], true)
}

#[derive(Clone, Debug)]
pub enum Shape {
    Leaf,
    Node(Box<Shape>, Box<Shape>),
}

fn shapes(n: usize) -> Vec<Shape> {
    if n == 1 {
        return vec![Shape::Leaf];
    }
    let mut v = vec![];
    for k in 1..n {
        for a in shapes(k) {
            for b in shapes(n - k) {
                v.push(Shape::Node(Box::new(a.clone()), Box::new(b.clone())));
            }
        }
    }
    v
}

pub struct Universe {
    pub name: String,
    pub lfs: usize,
    pub mss: usize,
    atoms: Vec<Atom>,
    leaves: usize,
    ops: Vec<Op>,
    shapes: Vec<Shape>,
    loops: Vec<Vec<Vec<usize>>>,
    canonical: bool,
}

impl Universe {
    /// `loops`: maximal number of loops of a term; stacks of loops on one node included
    pub fn new(name: &str, lfs: usize, mss: usize, atoms: Vec<Atom>, leaves: usize, ops: Vec<Op>, min_loops: usize, loops: usize, canonical: bool) -> Universe {
        let nodes = 2 * leaves - 1;
        let mut asg: Vec<Vec<Vec<usize>>> = vec![];
        fn rec(nodes: usize, left: usize, cur: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
            if cur.len() == nodes {
                out.push(cur.clone());
                return;
            }
            for k in 0..=left {
                for mut code in 0..4usize.pow(k as u32) {
                    let mut st = vec![];
                    for _ in 0..k {
                        st.push(code % 4);
                        code /= 4;
                    }
                    cur.push(st);
                    rec(nodes, left - k, cur, out);
                    cur.pop();
                }
            }
        }
        rec(nodes, loops, &mut vec![], &mut asg);
        asg.retain(|a| a.iter().map(|s| s.len()).sum::<usize>() >= min_loops);
        asg.sort_by_key(|a| a.iter().map(|s| s.len()).sum::<usize>());
        Universe { name: name.to_string(), lfs, mss, atoms, leaves, ops, shapes: shapes(leaves), loops: asg, canonical }
    }

    pub fn size(&self) -> u64 {
        (self.shapes.len() * self.loops.len()) as u64 * (self.ops.len() as u64).pow(self.leaves as u32 - 1) * (self.atoms.len() as u64).pow(self.leaves as u32)
    }

    pub fn decode(&self, idx: u64) -> Option<Interaction> {
        let mut i = idx;
        let mut leaves = Vec::with_capacity(self.leaves);
        for _ in 0..self.leaves {
            leaves.push((i % self.atoms.len() as u64) as usize);
            i /= self.atoms.len() as u64;
        }
        let (mut nl, mut nm) = (0usize, 0usize);
        if self.canonical {
            for a in &leaves {
                for l in &self.atoms[*a].lfs {
                    if *l > nl {
                        return None;
                    }
                    if *l == nl {
                        nl += 1;
                    }
                }
                for m in &self.atoms[*a].ms {
                    if *m > nm {
                        return None;
                    }
                    if *m == nm {
                        nm += 1;
                    }
                }
            }
        }
        let mut ops = Vec::with_capacity(self.leaves - 1);
        for _ in 0..(self.leaves - 1) {
            let o = &self.ops[(i % self.ops.len() as u64) as usize];
            if self.canonical {
                match o {
                    Op::CoReg(c) => {
                        if c.iter().any(|l| *l >= nl) {
                            return None;
                        }
                    }
                    Op::Sync(s) => {
                        if s.iter().any(|a| a.lf_id >= nl || a.ms_id >= nm) {
                            return None;
                        }
                    }
                    _ => {}
                }
            }
            ops.push(o);
            i /= self.ops.len() as u64;
        }
        let sh = &self.shapes[(i % self.shapes.len() as u64) as usize];
        i /= self.shapes.len() as u64;
        let lp = &self.loops[i as usize];
        let (mut li, mut oi, mut ni) = (0, 0, 0);
        Some(self.build(sh, &leaves, &ops, lp, &mut li, &mut oi, &mut ni))
    }

    fn build(&self, sh: &Shape, leaves: &[usize], ops: &[&Op], lp: &[Vec<usize>], li: &mut usize, oi: &mut usize, ni: &mut usize) -> Interaction {
        let node = *ni;
        *ni += 1;
        let mut t = match sh {
            Shape::Leaf => {
                let a = &self.atoms[leaves[*li]];
                *li += 1;
                a.int.clone()
            }
            Shape::Node(x, y) => {
                let o = ops[*oi];
                *oi += 1;
                let a = Box::new(self.build(x, leaves, ops, lp, li, oi, ni));
                let b = Box::new(self.build(y, leaves, ops, lp, li, oi, ni));
                match o {
                    Op::Strict => Interaction::Strict(a, b),
                    Op::Seq => Interaction::Seq(a, b),
                    Op::CoReg(c) => Interaction::CoReg(c.clone(), a, b),
                    Op::Alt => Interaction::Alt(a, b),
                    Op::Par => Interaction::Par(a, b),
                    Op::Sync(s) => Interaction::Sync(s.clone(), a, b),
                    Op::And => Interaction::And(a, b),
                }
            }
        };
        for k in &lp[node] {
            t = Interaction::Loop(KINDS[*k].clone(), Box::new(t));
        }
        t
    }
}

/// Several universes explored as one index space, in the order given.
pub struct Multi {
    pub parts: Vec<Universe>,
}

impl Multi {
    pub fn size(&self) -> u64 {
        self.parts.iter().map(|u| u.size()).sum()
    }
    pub fn decode(&self, idx: u64) -> (usize, Option<Interaction>) {
        let mut i = idx;
        for (n, u) in self.parts.iter().enumerate() {
            if i < u.size() {
                return (n, u.decode(i));
            }
            i -= u.size();
        }
        (0, None)
    }
    pub fn describe(&self) -> String {
        self.parts.iter().map(|u| format!("{} [{} raw terms]", u.name, u.size())).collect::<Vec<_>>().join("; ")
    }
}

pub fn gen_ctx(lfs: usize, mss: usize) -> GeneralContext {
    let mut g = GeneralContext::new();
    for l in 0..lfs {
        g.add_lf(((b'a' + l as u8) as char).to_string());
    }
    for m in 0..mss {
        g.add_msg(((b'm' + m as u8) as char).to_string());
    }
    g.add_gt("g".to_string());
    g
}

pub fn has_loop(i: &Interaction) -> bool {
    match i {
        Interaction::Loop(_, _) => true,
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => has_loop(a) || has_loop(b),
        _ => false,
    }
}

pub fn has_sync_op(i: &Interaction) -> bool {
    match i {
        Interaction::Sync(_, _, _) => true,
        Interaction::Loop(_, a) => has_sync_op(a),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) => has_sync_op(a) || has_sync_op(b),
        _ => false,
    }
}

/// number of trace actions when each loop is unrolled once
pub fn acts(i: &Interaction) -> usize {
    match i {
        Interaction::Empty => 0,
        Interaction::Emission(e) => match e.synchronicity {
            CommunicationSynchronicity::Synchronous => 1,
            _ => 1 + e.targets.iter().filter(|t| matches!(t, EmissionTargetRef::Lifeline(_))).count(),
        },
        Interaction::Reception(r) => match r.synchronicity {
            CommunicationSynchronicity::Synchronous => 1,
            _ => r.recipients.len(),
        },
        Interaction::Loop(_, a) => acts(a),
        Interaction::Alt(a, b) => acts(a).max(acts(b)),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::CoReg(_, a, b)
        | Interaction::Par(a, b) | Interaction::And(a, b) | Interaction::Sync(_, a, b) => acts(a) + acts(b),
    }
}

pub fn show(i: &Interaction) -> String {
    let lf = |l: usize| ((b'a' + l as u8) as char).to_string();
    let ms = |m: usize| ((b'm' + m as u8) as char).to_string();
    match i {
        Interaction::Empty => "o".into(),
        Interaction::Emission(e) => {
            let t: Vec<String> = e.targets.iter().map(|t| match t {
                EmissionTargetRef::Lifeline(l) => lf(*l),
                EmissionTargetRef::Gate(g) => format!("gate{}", g),
            }).collect();
            let s = if e.synchronicity == CommunicationSynchronicity::Synchronous { "<sync>" } else { "" };
            if t.is_empty() { format!("{}{}!{}", s, lf(e.origin_lf_id), ms(e.ms_id)) } else { format!("{}{}-{}->({})", s, lf(e.origin_lf_id), ms(e.ms_id), t.join(",")) }
        }
        Interaction::Reception(r) => {
            let s = if r.synchronicity == CommunicationSynchronicity::Synchronous { "<sync>" } else { "" };
            format!("{}{}?{}", s, r.recipients.iter().map(|l| lf(*l)).collect::<Vec<_>>().join(","), ms(r.ms_id))
        }
        Interaction::Strict(a, b) => format!("strict({}, {})", show(a), show(b)),
        Interaction::Seq(a, b) => format!("seq({}, {})", show(a), show(b)),
        Interaction::CoReg(c, a, b) => format!("coreg[{}]({}, {})", c.iter().map(|l| lf(*l)).collect::<Vec<_>>().join(","), show(a), show(b)),
        Interaction::Alt(a, b) => format!("alt({}, {})", show(a), show(b)),
        Interaction::Par(a, b) => format!("par({}, {})", show(a), show(b)),
        Interaction::And(a, b) => format!("and({}, {})", show(a), show(b)),
        Interaction::Loop(k, a) => {
            let k = match k {
                LoopKind::SStrictSeq => "S",
                LoopKind::HHeadFirstWS => "H",
                LoopKind::WWeakSeq => "W",
                LoopKind::PInterleaving => "P",
            };
            format!("loop{}({})", k, show(a))
        }
        Interaction::Sync(s, a, b) => format!("sync[{}]({}, {})",
            s.iter().map(|t| format!("{}{}{}", lf(t.lf_id), if t.act_kind == TraceActionKind::Emission { "!" } else { "?" }, ms(t.ms_id))).collect::<Vec<_>>().join(","), show(a), show(b)),
    }
}

/// a co-region over operands that order actions of distinct lifelines (communications, strict
/// sequencing): eliminating the lifeline that carries the order can then only over-approximate
pub fn coreg_on_ordered(i: &Interaction) -> bool {
    fn ordered(i: &Interaction) -> bool {
        match i {
            Interaction::Emission(_) | Interaction::Reception(_) => i.involved_lifelines().len() > 1,
            Interaction::Strict(_, _) => true,
            Interaction::Loop(k, a) => matches!(k, LoopKind::SStrictSeq | LoopKind::HHeadFirstWS) || ordered(a),
            Interaction::Seq(a, b) | Interaction::CoReg(_, a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b) => ordered(a) || ordered(b),
            Interaction::Empty => false,
            _ => true,
        }
    }
    match i {
        Interaction::CoReg(_, a, b) => ordered(a) || ordered(b) || coreg_on_ordered(a) || coreg_on_ordered(b),
        Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b) | Interaction::Sync(_, a, b) | Interaction::And(a, b) => coreg_on_ordered(a) || coreg_on_ordered(b),
        Interaction::Loop(_, a) => coreg_on_ordered(a),
        _ => false,
    }
}
