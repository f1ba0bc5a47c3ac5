//! The concrete syntax of interactions, signatures and multi-traces, written independently of
//! the code under test.
use hibou::core::execution::trace::trace::{TraceAction, TraceActionKind};
use hibou::core::general_context::GeneralContext;
use hibou::core::language::syntax::action::{CommunicationSynchronicity, EmissionTargetRef};
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};

use crate::lang::Letter;

pub struct Names {
    pub lf: Vec<String>,
    pub ms: Vec<String>,
    pub gt: Vec<String>,
}

impl Names {
    pub fn std(lfs: usize, mss: usize) -> Names {
        Names {
            lf: (0..lfs).map(|l| ((b'a' + l as u8) as char).to_string()).collect(),
            ms: (0..mss).map(|m| ((b'm' + m as u8) as char).to_string()).collect(),
            gt: vec!["g".to_string()],
        }
    }

    pub fn ctx(&self) -> GeneralContext {
        let mut g = GeneralContext::new();
        for l in &self.lf {
            g.add_lf(l.clone());
        }
        for m in &self.ms {
            g.add_msg(m.clone());
        }
        for x in &self.gt {
            g.add_gt(x.clone());
        }
        g
    }

    pub fn hsf(&self) -> String {
        let mut s = String::new();
        if !self.ms.is_empty() {
            s += &format!("@message{{{}}}\n", self.ms.join(";"));
        }
        if !self.lf.is_empty() {
            s += &format!("@lifeline{{{}}}\n", self.lf.join(";"));
        }
        if !self.gt.is_empty() {
            s += &format!("@gate{{{}}}\n", self.gt.join(";"));
        }
        s
    }

    pub fn act(&self, a: &TraceAction) -> String {
        format!("{}{}{}", self.lf[a.lf_id], if a.act_kind == TraceActionKind::Emission { "!" } else { "?" }, self.ms[a.ms_id])
    }

    pub fn letter(&self, l: &Letter) -> String {
        if l.len() == 1 {
            self.act(l.iter().next().unwrap())
        } else {
            format!("{{{}}}", l.iter().map(|a| self.act(a)).collect::<Vec<_>>().join(","))
        }
    }

    pub fn list(&self, l: &[usize]) -> String {
        let v: Vec<&str> = l.iter().map(|x| self.lf[*x].as_str()).collect();
        if v.len() == 1 { v[0].to_string() } else { format!("({})", v.join(",")) }
    }

    /// concrete syntax of an interaction (binary operators)
    pub fn hif(&self, i: &Interaction) -> String {
        let sy = |s: &CommunicationSynchronicity| if *s == CommunicationSynchronicity::Synchronous { "<synch>" } else { "" };
        match i {
            Interaction::Empty => "o".into(),
            Interaction::Emission(e) => {
                let mut l = vec![];
                let mut g = vec![];
                for t in &e.targets {
                    match t {
                        EmissionTargetRef::Lifeline(x) => l.push(self.lf[*x].clone()),
                        EmissionTargetRef::Gate(x) => g.push(self.gt[*x].clone()),
                    }
                }
                l.extend(g);
                let t = match l.len() {
                    0 => "|".to_string(),
                    1 => l[0].clone(),
                    _ => format!("({})", l.join(",")),
                };
                format!("{} -- {}{} -> {}", self.lf[e.origin_lf_id], sy(&e.synchronicity), self.ms[e.ms_id], t)
            }
            Interaction::Reception(r) => {
                let o = match r.origin_gt_id {
                    Some(g) => format!("{} -- ", self.gt[g]),
                    None => "".to_string(),
                };
                format!("{}{}{} -> {}", o, sy(&r.synchronicity), self.ms[r.ms_id], self.list(&r.recipients))
            }
            Interaction::Strict(a, b) => format!("strict({},{})", self.hif(a), self.hif(b)),
            Interaction::Seq(a, b) => format!("seq({},{})", self.hif(a), self.hif(b)),
            Interaction::Alt(a, b) => format!("alt({},{})", self.hif(a), self.hif(b)),
            Interaction::Par(a, b) => format!("par({},{})", self.hif(a), self.hif(b)),
            Interaction::And(a, b) => format!("and({},{})", self.hif(a), self.hif(b)),
            Interaction::CoReg(c, a, b) => format!("coreg({})({},{})", c.iter().map(|l| self.lf[*l].clone()).collect::<Vec<_>>().join(","), self.hif(a), self.hif(b)),
            Interaction::Sync(s, a, b) => {
                let v: Vec<String> = s.iter().map(|x| self.act(x)).collect();
                let set = if v.len() == 1 { format!("({})", v[0]) } else { format!("{{{}}}", v.join(",")) };
                format!("sync{}({},{})", set, self.hif(a), self.hif(b))
            }
            Interaction::Loop(k, a) => {
                let k = match k {
                    LoopKind::SStrictSeq => "S",
                    LoopKind::HHeadFirstWS => "H",
                    LoopKind::WWeakSeq => "W",
                    LoopKind::PInterleaving => "P",
                };
                format!("loop{}({})", k, self.hif(a))
            }
        }
    }

    /// concrete syntax of a multi-trace; components given with their lifelines
    pub fn htf(&self, comps: &[(Vec<usize>, Vec<Letter>)]) -> String {
        let mut s = String::from("{");
        for (n, (l, t)) in comps.iter().enumerate() {
            if n > 0 {
                s += ";";
            }
            s += &format!("[{}] {}", l.iter().map(|x| self.lf[*x].clone()).collect::<Vec<_>>().join(","), t.iter().map(|x| self.letter(x)).collect::<Vec<_>>().join("."));
        }
        s + "}"
    }
}

/// how drawings of terms name an action
pub fn label(n: &Names, i: &Interaction) -> String {
    let sy = |s: &CommunicationSynchronicity, c: &str| if *s == CommunicationSynchronicity::Synchronous { format!("|{}|", c) } else { c.to_string() };
    match i {
        Interaction::Emission(e) => {
            let t: Vec<String> = e
                .targets
                .iter()
                .map(|t| match t {
                    EmissionTargetRef::Lifeline(x) => n.lf[*x].clone(),
                    EmissionTargetRef::Gate(x) => n.gt[*x].clone(),
                })
                .collect();
            let t = if t.is_empty() { String::new() } else { format!("({})", t.join(",")) };
            format!("{}{}{}{}", n.lf[e.origin_lf_id], sy(&e.synchronicity, "!"), n.ms[e.ms_id], t)
        }
        Interaction::Reception(r) => {
            let g = r.origin_gt_id.map(|g| format!("[{}]", n.gt[g])).unwrap_or_default();
            format!("{}{}{}{}", n.list(&r.recipients), sy(&r.synchronicity, "?"), g, n.ms[r.ms_id])
        }
        _ => panic!("not an action"),
    }
}

/// the tree of an interaction, as the drawing should have it
pub fn tree_of(i: &Interaction, n: &Names) -> String {
    let two = |op: String, a: &Interaction, b: &Interaction| format!("{} [{} ; {}]", op, tree_of(a, n), tree_of(b, n));
    match i {
        Interaction::Empty => "o".into(),
        Interaction::Emission(_) | Interaction::Reception(_) => label(n, i),
        Interaction::Strict(a, b) => two("strict".into(), a, b),
        Interaction::Seq(a, b) => two("seq".into(), a, b),
        Interaction::Alt(a, b) => two("alt".into(), a, b),
        Interaction::Par(a, b) => two("par".into(), a, b),
        Interaction::And(a, b) => two("and".into(), a, b),
        Interaction::CoReg(l, a, b) => two(format!("coreg({})", l.iter().map(|x| n.lf[*x].clone()).collect::<Vec<_>>().join(",")), a, b),
        Interaction::Sync(s, a, b) => two(format!("sync{{{}}}", s.iter().map(|x| n.act(x)).collect::<Vec<_>>().join(",")), a, b),
        Interaction::Loop(k, a) => {
            use hibou::core::language::syntax::interaction::LoopKind::*;
            let op = match k {
                SStrictSeq => "loopS",
                HHeadFirstWS => "loopH",
                WWeakSeq => "loopW",
                PInterleaving => "loopP",
            };
            format!("{} [{}]", op, tree_of(a, n))
        }
    }
}
