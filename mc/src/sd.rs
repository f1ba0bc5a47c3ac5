//! Pictures as they should be: an independent renderer of sequence diagrams and of lines of text.
use std::collections::{BTreeMap, BTreeSet};

use image::{Rgb, RgbImage};
use image_colored_text::ttp::TextToPrint;
use imageproc::drawing::{draw_line_segment_mut, draw_text_mut, Canvas};
use rusttype::{Font, Scale};

use hibou::core::execution::trace::trace::{TraceAction, TraceActionKind};
use hibou::core::language::position::position::Position;
use hibou::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};
use hibou::process::ana::node::flags::MultiTraceAnalysisFlags;

use crate::hif::Names;

pub type Ink = [u8; 3];

// the look of the pictures: units, fonts and colours
const MARGIN: f32 = 11.0;
const HORIZONTAL_SIZE: f32 = 100.0;
const VERTICAL_SIZE: f32 = 11.0;
const FRAGMENT_PADDING: f32 = 10.0;
const FRAGMENT_TITLE_MARGIN: f32 = 2.0;
const THICKNESS: f32 = 2.0;
const FONT_HEIGHT: f32 = 24.8;
const FONT_WIDTH: f32 = 24.8;
const ARROW_HEAD_LENGTH: f32 = 10.0;
const GATE_SIZE: f32 = 8.0;
const HIBOU_FONT_SCALE: Scale = Scale { x: 24.8, y: 24.8 };
pub const WHITE: Ink = [255, 255, 255];
pub const BLACK: Ink = [0, 0, 0];
pub const BLUE: Ink = [22, 22, 130];
pub const GREEN: Ink = [15, 86, 15];
pub const PURPLE: Ink = [94, 22, 130];
pub const GRAY: Ink = [127, 127, 127];

fn get_hibou_font() -> Font<'static> {
    Font::try_from_bytes(include_bytes!("DejaVuSansMono.ttf")).unwrap()
}

/// A picture, and where several things are drawn over each other (there, the order of drawing decides, which is left open).
pub struct Sheet {
    pub w: u32,
    pub h: u32,
    px: Vec<Ink>,
    by: Vec<u32>,
    shared: Vec<bool>,
    stroke: u32,
    /// some text does not fit
    pub cut: bool,
}

impl Canvas for Sheet {
    type Pixel = Rgb<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgb<u8> {
        Rgb(self.px[(y * self.w + x) as usize])
    }
    fn draw_pixel(&mut self, x: u32, y: u32, c: Rgb<u8>) {
        let k = (y * self.w + x) as usize;
        if self.px[k] == c.0 {
            return;
        }
        if self.by[k] != 0 && self.by[k] != self.stroke {
            self.shared[k] = true;
        }
        self.by[k] = self.stroke;
        self.px[k] = c.0;
    }
}

impl Sheet {
    pub fn new(w: f32, h: f32) -> Sheet {
        let (w, h) = (w as u32, h as u32);
        let n = (w * h) as usize;
        Sheet { w, h, px: vec![WHITE; n], by: vec![0; n], shared: vec![false; n], stroke: 0, cut: false }
    }

    pub fn line(&mut self, a: (f32, f32), b: (f32, f32)) {
        self.stroke += 1;
        draw_line_segment_mut(self, a, b, Rgb(BLACK));
    }

    fn block(&mut self, x: i32, y: i32, s: u32) {
        self.stroke += 1;
        for i in 0..s as i32 {
            for j in 0..s as i32 {
                if x + i >= 0 && y + j >= 0 && x + i < self.w as i32 && y + j < self.h as i32 {
                    self.draw_pixel((x + i) as u32, (y + j) as u32, Rgb(BLACK));
                }
            }
        }
    }

    /// text of several colours, on one line, whose upper left corner is there
    fn text_at(&mut self, x: i32, y: i32, t: &[(String, Ink)]) {
        self.cut |= x < 0 || x as f32 + width(t) > self.w as f32;
        let font = get_hibou_font();
        let mut before = String::new();
        for (s, c) in t {
            self.stroke += 1;
            draw_text_mut(self, Rgb(*c), x, y, HIBOU_FONT_SCALE, &font, &format!("{}{}", before, s));
            before.push_str(&" ".repeat(s.chars().count()));
        }
    }

    /// centered on a point
    fn text(&mut self, x: f32, y: f32, t: &[(String, Ink)]) {
        self.text_at((x - width(t) / 2.0) as i32, (y - line_height() / 2.0) as i32, t);
    }

    /// as a file
    pub fn png(&self) -> Vec<u8> {
        let mut out = std::io::Cursor::new(vec![]);
        let img = RgbImage::from_raw(self.w, self.h, self.px.concat()).unwrap();
        img.write_to(&mut out, image::ImageOutputFormat::Png).unwrap();
        out.into_inner()
    }

    /// how the picture that was drawn differs, if it does
    pub fn differs(&self, p: &RgbImage) -> Option<String> {
        if p.dimensions() != (self.w, self.h) {
            return Some(format!("the picture is {:?} instead of {:?}", p.dimensions(), (self.w, self.h)));
        }
        for (k, c) in p.as_raw().chunks(3).enumerate() {
            if self.px[k] != c && !self.shared[k] {
                return Some(format!("at ({},{}) the picture has {:?} instead of {:?}", k as u32 % self.w, k as u32 / self.w, c, self.px[k]));
            }
        }
        None
    }
}

pub fn width(t: &[(String, Ink)]) -> f32 {
    let v: Vec<TextToPrint> = t.iter().map(|(s, c)| TextToPrint::new(s.clone(), Rgb(*c))).collect();
    TextToPrint::get_text_width(&v, &get_hibou_font(), &HIBOU_FONT_SCALE)
}

pub fn line_height() -> f32 {
    TextToPrint::get_text_height(&get_hibou_font(), &HIBOU_FONT_SCALE)
}

// ---------------------------------------------------------------------------------------------
// texts

pub fn act_text(a: &TraceAction, n: &Names) -> Vec<(String, Ink)> {
    let k = if a.act_kind == TraceActionKind::Emission { "!" } else { "?" };
    vec![(n.lf[a.lf_id].clone(), BLUE), (k.into(), BLACK), (n.ms[a.ms_id].clone(), GREEN)]
}

pub fn acts_text(s: &BTreeSet<TraceAction>, n: &Names, always: bool) -> Vec<(String, Ink)> {
    let mut v = vec![];
    for (k, a) in s.iter().enumerate() {
        if k > 0 {
            v.push((",".to_string(), BLACK));
        }
        v.extend(act_text(a, n));
    }
    if always || s.len() > 1 {
        v.insert(0, ("{".into(), BLACK));
        v.push(("}".into(), BLACK));
    }
    v
}

pub type Line = Vec<(String, Ink)>;

fn ink(s: impl Into<String>, c: Ink) -> (String, Ink) {
    (s.into(), c)
}

fn place(p: &Position) -> String {
    match p {
        Position::Epsilon(None) => "".into(),
        Position::Epsilon(Some(k)) => format!("s{}", k),
        Position::Left(q) => format!("1{}", place(q)),
        Position::Right(q) => format!("2{}", place(q)),
        Position::Both(q, r) => format!("(1{},2{})", place(q), place(r)),
    }
}

fn names(l: &BTreeSet<usize>, n: &Names, of: Ink, around: Ink) -> Line {
    let mut v = vec![ink("[", around)];
    for (k, x) in l.iter().enumerate() {
        if k > 0 {
            v.push(ink(",", around));
        }
        v.push(ink(n.lf[*x].clone(), of));
    }
    v.push(ink("]", around));
    v
}

/// some rewriting or the execution of some actions, somewhere
pub fn step(what: Line, p: &Position) -> Line {
    [what, vec![ink("@", PURPLE), ink(place(p), BLACK)]].concat()
}

pub fn executed(s: &BTreeSet<TraceAction>, n: &Names) -> Line {
    s.iter().flat_map(|a| [act_text(a, n), vec![ink(" ", BLACK)]].concat()).collect()
}

pub fn eliminated(l: &BTreeSet<usize>, n: &Names) -> Line {
    let mut v = names(l, n, BLUE, BLACK);
    v[0].0 = "eliminate lifelines [".into();
    v
}

/// the components that consume an action, and those that simulate it (with where)
pub fn consumed(comps: &[BTreeSet<usize>], c: &BTreeSet<usize>, s: &BTreeMap<usize, &str>, n: &Names) -> Option<Line> {
    let mut v = vec![];
    for x in c {
        v.push(ink("C", BLACK));
        v.extend(names(&comps[*x], n, BLUE, BLACK));
        v.push(ink(" ", BLACK));
    }
    for (x, to) in s {
        v.push(ink("S", GRAY));
        v.extend(names(&comps[*x], n, BLUE, GRAY));
        v.push(ink(*to, GRAY));
        v.push(ink(" ", BLACK));
    }
    if v.is_empty() { None } else { Some(v) }
}

/// what remains of a multi-trace
pub fn remains(comps: &[BTreeSet<usize>], mu: &[Vec<BTreeSet<TraceAction>>], f: &MultiTraceAnalysisFlags, sim: bool, loops: bool, actions: bool, n: &Names) -> Vec<Line> {
    let mut out = vec![];
    for ((l, t), f) in comps.iter().zip(mu).zip(&f.canals) {
        if f.no_longer_observed {
            let mut v = names(l, n, GRAY, GRAY);
            v.push(ink(" ", BLACK));
            if f.simulated_before > 0 {
                v.push(ink(format!("♧{}", f.simulated_before), GRAY));
            }
            v.push(ink(format!("⚐{}⚑ non-obs ", f.consumed), GRAY));
            out.extend([v, vec![]]);
            continue;
        }
        let mut v = names(l, n, BLUE, BLACK);
        let indent: usize = 1 + v.iter().map(|x| x.0.chars().count()).sum::<usize>();
        v.push(ink(" ←", BLACK));
        for (k, a) in t[f.consumed..].iter().enumerate() {
            if k > 0 {
                v.push(ink(".", BLACK));
            }
            v.extend(acts_text(a, n, false));
        }
        if t.len() == f.consumed {
            v.push(ink("ε", GRAY));
        }
        v.push(ink(" ", BLACK));
        out.push(v);
        let mut s = " ".repeat(indent);
        if f.simulated_before > 0 {
            s += &format!("♧{}", f.simulated_before);
        }
        if f.consumed > 0 || f.simulated_after > 0 {
            s += &format!("⚐{}", f.consumed);
            if t.len() == f.consumed {
                s += "⚑";
                if f.simulated_after > 0 {
                    s += &format!("{}♣", f.simulated_after);
                }
            }
        }
        if f.dirty_local_counter > 0 {
            s += " *";
            if f.dirty_local_counter > 1 {
                s += &f.dirty_local_counter.to_string();
            }
        }
        out.push(vec![ink(s + " ", BLACK)]);
    }
    if sim {
        let mut s = " ⌕ ".to_string();
        if loops {
            s += &format!("L{} ", f.rem_loop_in_sim);
        }
        if actions {
            s += &format!("A{}", f.rem_act_in_sim);
        }
        if !loops && !actions {
            s += "*";
        }
        out.push(vec![ink(s, BLACK)]);
    }
    out
}

/// a picture that only holds lines of text
pub fn note(lines: &[Line], centered: bool) -> Sheet {
    let most = lines.iter().map(|l| width(l)).fold(0.0, f32::max);
    let mut s = Sheet::new(2.0 * MARGIN + most, 2.0 * MARGIN + lines.len() as f32 * FONT_HEIGHT);
    let mut y = MARGIN;
    for l in lines {
        let x = if centered { (MARGIN + most / 2.0 - width(l) / 2.0) as i32 } else { MARGIN as i32 };
        s.text_at(x, y as i32, l);
        y += line_height();
    }
    s
}

// ---------------------------------------------------------------------------------------------
// sequence diagrams

enum Block {
    Nothing,
    Send(EmissionAction),
    Receive(ReceptionAction),
    Chain(Vec<Block>),
    /// label, operands, room after the label and around the operands
    Frame(Vec<(String, Ink)>, Vec<Block>),
    Loop(&'static str, Box<Block>),
    Region(Vec<usize>, Vec<Block>),
}

/// the operands of nested uses of one operator
fn operands<'a>(i: &'a Interaction, same: &dyn Fn(&'a Interaction) -> Option<(&'a Interaction, &'a Interaction)>) -> Vec<&'a Interaction> {
    match same(i) {
        None => vec![i],
        Some((a, b)) => [operands(a, same), operands(b, same)].concat(),
    }
}

fn block(i: &Interaction, n: &Names) -> Block {
    let plain = |s: &str| vec![(s.to_string(), BLACK)];
    let all = |v: Vec<&Interaction>| v.into_iter().map(|x| block(x, n)).collect::<Vec<_>>();
    match i {
        Interaction::Empty => Block::Nothing,
        Interaction::Emission(e) => Block::Send(e.clone()),
        Interaction::Reception(r) => Block::Receive(r.clone()),
        Interaction::Seq(..) => Block::Chain(all(operands(i, &|x| if let Interaction::Seq(a, b) = x { Some((a, b)) } else { None }))),
        Interaction::Strict(..) => Block::Frame(plain("strict"), all(operands(i, &|x| if let Interaction::Strict(a, b) = x { Some((a, b)) } else { None }))),
        Interaction::Alt(..) => Block::Frame(plain("alt"), all(operands(i, &|x| if let Interaction::Alt(a, b) = x { Some((a, b)) } else { None }))),
        Interaction::Par(..) => Block::Frame(plain("par"), all(operands(i, &|x| if let Interaction::Par(a, b) = x { Some((a, b)) } else { None }))),
        Interaction::And(a, b) => Block::Frame(plain("and"), all(vec![a, b])),
        Interaction::Sync(s, ..) => {
            let mut l = plain("sync");
            l.extend(acts_text(&s.iter().cloned().collect(), n, true));
            Block::Frame(l, all(operands(i, &|x| if let Interaction::Sync(t, a, b) = x { if t == s { Some((a, b)) } else { None } } else { None })))
        }
        Interaction::CoReg(l, ..) => Block::Region(l.clone(), all(operands(i, &|x| if let Interaction::CoReg(m, a, b) = x { if m == l { Some((a, b)) } else { None } } else { None }))),
        Interaction::Loop(k, a) => {
            let l = match k {
                LoopKind::SStrictSeq => "loopS",
                LoopKind::HHeadFirstWS => "loopH",
                LoopKind::WWeakSeq => "loopW",
                LoopKind::PInterleaving => "loopP",
            };
            Block::Loop(l, Box::new(block(a, n)))
        }
    }
}

impl Block {
    /// in rows
    fn height(&self) -> u32 {
        match self {
            Block::Nothing => 0,
            Block::Send(_) | Block::Receive(_) => 3,
            Block::Chain(v) => v.iter().map(|b| b.height()).sum::<u32>() + v.len() as u32 - 1,
            Block::Frame(_, v) => 2 + v.iter().map(|b| b.height() + 2).sum::<u32>(),
            Block::Loop(_, b) => 4 + b.height(),
            Block::Region(_, v) => v.iter().map(|b| b.height() + 2).sum(),
        }
    }

    /// the lifelines it spans
    fn lfs(&self) -> BTreeSet<usize> {
        match self {
            Block::Nothing => BTreeSet::new(),
            Block::Send(e) => e.targets.iter().filter_map(|t| if let EmissionTargetRef::Lifeline(l) = t { Some(*l) } else { None }).chain([e.origin_lf_id]).collect(),
            Block::Receive(r) => r.recipients.iter().cloned().collect(),
            Block::Chain(v) | Block::Frame(_, v) | Block::Region(_, v) => v.iter().flat_map(|b| b.lfs()).collect(),
            Block::Loop(_, b) => b.lfs(),
        }
    }
}

struct Column {
    left: f32,
    middle: f32,
    /// with and without its margins
    outer: f32,
    inner: f32,
}

fn row(y: u32) -> f32 {
    MARGIN + VERTICAL_SIZE * y as f32
}

struct Diagram<'a> {
    s: Sheet,
    c: BTreeMap<usize, Column>,
    n: &'a Names,
}

pub fn diagram(i: &Interaction, n: &Names) -> Sheet {
    let b = block(i, n);
    let mut c = BTreeMap::new();
    let mut x = MARGIN;
    for l in b.lfs() {
        let inner = (HORIZONTAL_SIZE - 2.0 * MARGIN).max(2.0 * MARGIN + n.lf[l].chars().count() as f32 * FONT_WIDTH / 2.0);
        let outer = inner + 2.0 * MARGIN;
        c.insert(l, Column { left: x, middle: x + outer / 2.0 + THICKNESS, outer, inner });
        x += outer + MARGIN;
    }
    let tall = (b.height() + 4) as f32 * VERTICAL_SIZE;
    let mut d = Diagram { s: Sheet::new(x, tall + 2.0 * MARGIN), c, n };
    for (l, c) in &d.c {
        // a name in a box, and a line below it
        d.s.text(c.middle, MARGIN + VERTICAL_SIZE, &[(n.lf[*l].clone(), BLUE)]);
        let w = FONT_WIDTH * n.lf[*l].chars().count() as f32 / 2.0 + 2.0 * MARGIN;
        let (x0, y0) = ((c.middle - w / 2.0) as i32 as f32, MARGIN as i32 as f32);
        let (x1, y1) = (x0 + (w as u32 - 1) as f32, y0 + ((2.0 * VERTICAL_SIZE) as u32 - 1) as f32);
        for (p, q) in [((x0, y0), (x1, y0)), ((x0, y1), (x1, y1)), ((x0, y0), (x0, y1)), ((x1, y0), (x1, y1))] {
            d.s.line(p, q);
        }
        d.s.line((c.middle, row(2)), (c.middle, MARGIN + tall));
    }
    d.draw(&b, 3, 1);
    d.s
}

impl<'a> Diagram<'a> {
    fn arrow(&mut self, from: f32, to: f32, y: f32, leftward: bool, s: &CommunicationSynchronicity) {
        let back = if leftward { ARROW_HEAD_LENGTH } else { -ARROW_HEAD_LENGTH };
        self.s.line((to, y), (to + back, y - ARROW_HEAD_LENGTH));
        self.s.line((to, y), (to + back, y + ARROW_HEAD_LENGTH));
        let (a, b) = (from.min(to), from.max(to));
        if *s == CommunicationSynchronicity::Synchronous {
            self.s.line((a, y - 1.5), (b, y - 1.5));
            self.s.line((a, y + 1.5), (b, y + 1.5));
        } else {
            self.s.line((a, y), (b, y));
        }
    }

    fn gate(&mut self, x: f32, y: f32) {
        self.s.block(x as i32, (y - GATE_SIZE / 2.0) as i32, GATE_SIZE as u32);
    }

    fn send(&mut self, e: &EmissionAction, y: u32) {
        let (ty, ay) = (row(y) + VERTICAL_SIZE / 2.0, row(y + 2));
        let word = [(self.n.ms[e.ms_id].clone(), GREEN)];
        let wide = self.s.w as f32;
        let (mid, inner) = (self.c[&e.origin_lf_id].middle, self.c[&e.origin_lf_id].inner);
        match e.targets.as_slice() {
            [EmissionTargetRef::Lifeline(l)] => {
                let to = self.c[l].middle;
                let leftward = *l < e.origin_lf_id;
                self.arrow(mid, to, ay, leftward, &e.synchronicity);
                // the message is next to the one who sends it
                let next = if leftward { self.c.range(..e.origin_lf_id).next_back() } else { self.c.range(e.origin_lf_id + 1..).next() };
                let x = (mid + next.unwrap().1.middle) / 2.0;
                self.s.text(x, ty, &word);
            }
            [EmissionTargetRef::Gate(_)] => {
                self.gate(wide - GATE_SIZE, ay);
                self.arrow(mid, wide, ay, false, &e.synchronicity);
                self.s.text((mid + wide) / 2.0, ty, &word);
            }
            many => {
                // sent to whoever, and received by each
                let to = mid + inner / 2.0;
                self.arrow(mid, to, ay, false, &e.synchronicity);
                self.s.text((mid + to) / 2.0, ty, &word);
                for t in many {
                    match t {
                        EmissionTargetRef::Lifeline(l) => {
                            let (m, i) = (self.c[l].middle, self.c[l].inner);
                            self.arrow(m - i / 2.0, m, ay, false, &e.synchronicity);
                        }
                        EmissionTargetRef::Gate(_) => {
                            self.gate(wide - GATE_SIZE, ay);
                            self.arrow(wide - (HORIZONTAL_SIZE - 2.0 * MARGIN) / 3.0, wide, ay, false, &e.synchronicity);
                        }
                    }
                }
            }
        }
    }

    fn receive(&mut self, r: &ReceptionAction, y: u32) {
        let (ty, ay) = (row(y) + VERTICAL_SIZE / 2.0, row(y + 2));
        let word = [(self.n.ms[r.ms_id].clone(), GREEN)];
        if r.origin_gt_id.is_some() {
            let to = HORIZONTAL_SIZE / 3.5;
            self.gate(0.0, ay);
            self.arrow(0.0, to, ay, false, &r.synchronicity);
            self.s.text(to / 2.0, ty, &word);
        }
        for l in &r.recipients {
            let (m, i) = (self.c[l].middle, self.c[l].inner);
            self.arrow(m - i / 2.0, m, ay, false, &r.synchronicity);
            self.s.text((m - i / 2.0 + m) / 2.0, ty, &word);
        }
    }

    fn frame(&mut self, b: &Block, label: &[(String, Ink)], depth: u32, cuts: &[u32]) {
        let l = b.lfs();
        let (first, last) = match (l.first(), l.last()) {
            (Some(a), Some(b)) => (&self.c[a], &self.c[b]),
            _ => return, // around nothing
        };
        let pad = depth as f32 * FRAGMENT_PADDING;
        let (x0, x1) = (first.left + pad, last.left + last.outer - pad);
        let (y0, y1) = (row(cuts[0]), row(*cuts.last().unwrap()));
        self.s.line((x0, y0), (x0, y1));
        self.s.line((x1, y0), (x1, y1));
        for y in cuts {
            self.s.line((x0, row(*y)), (x1, row(*y)));
        }
        self.s.text_at((x0 + FRAGMENT_TITLE_MARGIN) as i32, (y0 + VERTICAL_SIZE + FRAGMENT_TITLE_MARGIN - line_height() / 2.0) as i32, label);
    }

    /// from row `y` on, within `depth` frames
    fn draw(&mut self, b: &Block, y: u32, depth: u32) {
        match b {
            Block::Nothing => (),
            Block::Send(e) => self.send(e, y),
            Block::Receive(r) => self.receive(r, y),
            Block::Chain(v) => {
                let mut y = y;
                for x in v {
                    self.draw(x, y, depth);
                    y += x.height() + 1;
                }
            }
            Block::Loop(l, x) => {
                self.draw(x, y + 3, depth + 1);
                self.frame(b, &[(l.to_string(), BLACK)], depth, &[y, y + 4 + x.height()]);
            }
            Block::Frame(l, v) => {
                let mut cuts = vec![y];
                let mut y = y + 2;
                for x in v {
                    self.draw(x, y + 1, depth + 1);
                    y += x.height() + 2;
                    cuts.push(y);
                }
                self.frame(b, l, depth, &cuts);
            }
            Block::Region(l, v) => {
                let mut cuts = vec![y];
                let mut y = y;
                for x in v {
                    self.draw(x, y + 1, depth + 1);
                    y += x.height() + 2;
                    cuts.push(y);
                }
                // a bracket on each lifeline
                let (y0, y1) = (row(cuts[0]), row(*cuts.last().unwrap()));
                for l in l {
                    let (m, o) = match self.c.get(l) {
                        Some(c) => (c.middle, c.outer),
                        None => continue,
                    };
                    let pad = depth as f32 * FRAGMENT_PADDING;
                    let (x0, x1) = (m - o / 2.0 + pad, m + o / 2.0 - pad);
                    for y in &cuts {
                        self.s.line((x0, row(*y)), (x1, row(*y)));
                    }
                    for x in [x0, x1] {
                        self.s.line((x, y0), (x, y0 + VERTICAL_SIZE / 2.0));
                        self.s.line((x, y1), (x, y1 - VERTICAL_SIZE / 2.0));
                        for y in &cuts[1..cuts.len() - 1] {
                            self.s.line((x, row(*y) - VERTICAL_SIZE / 4.0), (x, row(*y) + VERTICAL_SIZE / 4.0));
                        }
                    }
                }
            }
        }
    }
}
