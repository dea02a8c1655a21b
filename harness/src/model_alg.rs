//! An independent model of the alg notation: syntax tree, parser, printer, inversion, generators.

use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use cubing_core::alg::{
    Alg, AlgNode, Commutator, Conjugate, Grouping, LineComment, Move, MoveLayer, MovePrefix,
    MoveRange, Newline, Pause, QuantumMove,
};

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Pre {
    None,
    Layer(u32),
    Range(u32, u32),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct MMove {
    pub pre: Pre,
    pub fam: String,
    pub amt: i64,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum N {
    Move(MMove),
    Pause,
    Newline,
    Comment(String),
    Group(Vec<N>, i64),
    Comm(Vec<N>, Vec<N>),
    Conj(Vec<N>, Vec<N>),
}

pub const SLASH: &str = "_SLASH_";
pub const USQ: &str = "U_SQ_";
pub const DSQ: &str = "D_SQ_";

pub fn mv(fam: &str, amt: i64) -> MMove {
    MMove {
        pre: Pre::None,
        fam: fam.to_owned(),
        amt,
    }
}

impl MMove {
    pub fn is_plain_slash(&self) -> bool {
        self.fam == SLASH && self.pre == Pre::None
    }
    pub fn with_amt(&self, amt: i64) -> MMove {
        MMove {
            amt,
            ..self.clone()
        }
    }
    pub fn inverted(&self) -> MMove {
        if self.is_plain_slash() {
            self.clone()
        } else {
            self.with_amt(-self.amt)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The notation, parsed by recursive descent. `None`: not an alg.

struct P<'a> {
    s: &'a [u8],
    at: usize,
    text: &'a str,
}

impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.at).copied()
    }
    fn peek2(&self) -> Option<u8> {
        self.s.get(self.at + 1).copied()
    }
    fn eat(&mut self, b: u8) -> bool {
        if self.peek() == Some(b) {
            self.at += 1;
            true
        } else {
            false
        }
    }
    fn digits(&mut self) -> Option<&str> {
        let start = self.at;
        while self.peek().is_some_and(|b| b.is_ascii_digit()) {
            self.at += 1;
        }
        if self.at == start {
            None
        } else {
            Some(&self.text[start..self.at])
        }
    }
    /// A non-negative number of at most `max`; `Err` if there are digits but the number is larger.
    fn number(&mut self, max: u64) -> Result<Option<u64>, ()> {
        match self.digits() {
            None => Ok(None),
            Some(d) => {
                let mut v: u64 = 0;
                for c in d.bytes() {
                    v = v
                        .saturating_mul(10)
                        .saturating_add((c - b'0') as u64);
                }
                if v > max {
                    Err(())
                } else {
                    Ok(Some(v))
                }
            }
        }
    }
    fn spaces(&mut self) -> bool {
        let start = self.at;
        while self.eat(b' ') {}
        self.at > start
    }

    fn alg(&mut self) -> Result<Vec<N>, ()> {
        let mut nodes: Vec<N> = vec![];
        loop {
            let spaced = self.spaces();
            let Some(c) = self.peek() else { break };
            let starts_node = c.is_ascii_alphanumeric() || b"_/.\n([".contains(&c);
            if !starts_node {
                break;
            }
            // `(3, -4)` is only recognized by its parent.
            let node = self.node()?;
            if node != N::Newline && !spaced {
                match nodes.last() {
                    None | Some(N::Newline) | Some(N::Comment(_)) => {}
                    Some(_) => return Err(()),
                }
            }
            nodes.push(node);
        }
        Ok(nodes)
    }

    fn node(&mut self) -> Result<N, ()> {
        match self.peek().ok_or(())? {
            b'/' => {
                self.at += 1;
                if self.eat(b'/') {
                    let start = self.at;
                    while self.peek().is_some_and(|b| b != b'\n') {
                        self.at += 1;
                    }
                    Ok(N::Comment(self.text[start..self.at].to_owned()))
                } else {
                    Ok(N::Move(mv(SLASH, 1)))
                }
            }
            b'.' => {
                self.at += 1;
                Ok(N::Pause)
            }
            b'\n' => {
                self.at += 1;
                Ok(N::Newline)
            }
            b'(' => {
                self.at += 1;
                let back = self.at;
                if let Some(pair) = self.square1_pair() {
                    return Ok(N::Group(
                        vec![N::Move(mv(USQ, pair.0)), N::Move(mv(DSQ, pair.1))],
                        1,
                    ));
                }
                self.at = back;
                let alg = self.alg()?;
                if !self.eat(b')') {
                    return Err(());
                }
                let amt = self.repetition()?;
                Ok(N::Group(alg, amt))
            }
            b'[' => {
                self.at += 1;
                let a = self.alg()?;
                let comm = match self.peek() {
                    Some(b',') => true,
                    Some(b':') => false,
                    _ => return Err(()),
                };
                self.at += 1;
                let b = self.alg()?;
                if !self.eat(b']') {
                    return Err(());
                }
                let amt = self.repetition()?;
                let node = if comm { N::Comm(a, b) } else { N::Conj(a, b) };
                Ok(if amt == 1 {
                    node
                } else {
                    N::Group(vec![node], amt)
                })
            }
            _ => Ok(N::Move(self.r#move()?)),
        }
    }

    fn square1_pair(&mut self) -> Option<(i64, i64)> {
        let a = self.signed()?;
        if !(self.eat(b',') && self.eat(b' ')) {
            return None;
        }
        let b = self.signed()?;
        if !self.eat(b')') {
            return None;
        }
        Some((a, b))
    }

    fn signed(&mut self) -> Option<i64> {
        let neg = self.eat(b'-');
        let v = self.number(i32::MAX as u64).ok()?? as i64;
        Some(if neg { -v } else { v })
    }

    fn repetition(&mut self) -> Result<i64, ()> {
        let v = self.number(i32::MAX as u64)?.unwrap_or(1) as i64;
        Ok(if self.eat(b'\'') { -v } else { v })
    }

    fn quantum(&mut self) -> Result<(Pre, String), ()> {
        let pre = match self.number(u32::MAX as u64)? {
            None => Pre::None,
            Some(outer) => {
                if self.eat(b'-') {
                    let inner = self.number(u32::MAX as u64)?.ok_or(())?;
                    Pre::Range(outer as u32, inner as u32)
                } else {
                    Pre::Layer(outer as u32)
                }
            }
        };
        let start = self.at;
        while self
            .peek()
            .is_some_and(|b| b.is_ascii_alphabetic() || b == b'_')
        {
            self.at += 1;
        }
        if self.at == start {
            return Err(());
        }
        Ok((pre, self.text[start..self.at].to_owned()))
    }

    fn r#move(&mut self) -> Result<MMove, ()> {
        if self.eat(b'/') {
            return Ok(mv(SLASH, 1));
        }
        let (pre, fam) = self.quantum()?;
        for (sign, amt) in [(b'+', 1), (b'-', -1)] {
            if self.peek() == Some(sign) && self.peek2() == Some(sign) {
                self.at += 2;
                return Ok(MMove {
                    pre,
                    fam: fam + "_PLUSPLUS_",
                    amt,
                });
            }
        }
        let number = self.number(i32::MAX as u64)?;
        if let Some(v) = number {
            for (sign, unit) in [(b'+', 1), (b'-', -1)] {
                if self.eat(sign) {
                    return Ok(MMove {
                        pre,
                        fam: fam + "_PLUS_",
                        amt: v as i64 * unit,
                    });
                }
            }
        }
        let v = number.unwrap_or(1) as i64;
        let amt = if self.eat(b'\'') { -v } else { v };
        Ok(MMove { pre, fam, amt })
    }
}

fn parser(text: &str) -> P<'_> {
    P {
        s: text.as_bytes(),
        at: 0,
        text,
    }
}

pub fn parse(text: &str) -> Option<Vec<N>> {
    let mut p = parser(text);
    let alg = p.alg().ok()?;
    (p.at == text.len()).then_some(alg)
}

pub fn parse_move(text: &str) -> Option<MMove> {
    let mut p = parser(text);
    let m = p.r#move().ok()?;
    (p.at == text.len()).then_some(m)
}

pub fn parse_quantum(text: &str) -> Option<(Pre, String)> {
    let mut p = parser(text);
    let q = p.quantum().ok()?;
    (p.at == text.len()).then_some(q)
}

// ---------------------------------------------------------------------------------------------
// Canonical text.

fn suffix(amt: i64) -> String {
    match amt {
        1 => String::new(),
        -1 => "'".to_owned(),
        n if n < 0 => format!("{}'", n.unsigned_abs()),
        n => n.to_string(),
    }
}

pub fn print_quantum(pre: Pre, fam: &str) -> String {
    match pre {
        Pre::None => fam.to_owned(),
        Pre::Layer(l) => format!("{}{}", l, fam),
        Pre::Range(o, i) => format!("{}-{}{}", o, i, fam),
    }
}

pub fn print_move(m: &MMove) -> String {
    if m.is_plain_slash() && m.amt == 1 {
        return "/".to_owned();
    }
    if let Some(base) = m.fam.strip_suffix("_PLUS_") {
        if !base.is_empty() {
            return format!(
                "{}{}{}",
                print_quantum(m.pre, base),
                m.amt.unsigned_abs(),
                if m.amt < 0 { "-" } else { "+" }
            );
        }
    }
    if let Some(base) = m.fam.strip_suffix("_PLUSPLUS_") {
        if !base.is_empty() && m.amt.abs() == 1 {
            return format!(
                "{}{}",
                print_quantum(m.pre, base),
                if m.amt < 0 { "--" } else { "++" }
            );
        }
    }
    format!("{}{}", print_quantum(m.pre, &m.fam), suffix(m.amt))
}

pub fn square1_pair(nodes: &[N], amt: i64) -> Option<(i64, i64)> {
    match (nodes, amt) {
        ([N::Move(a), N::Move(b)], 1)
            if a.pre == Pre::None && a.fam == USQ && b.pre == Pre::None && b.fam == DSQ =>
        {
            Some((a.amt, b.amt))
        }
        _ => None,
    }
}

fn enclosed(nodes: &[N]) -> String {
    let mut s = print(nodes);
    if matches!(nodes.last(), Some(N::Comment(_))) {
        s.push('\n');
    }
    s
}

pub fn print_node(n: &N) -> String {
    match n {
        N::Move(m) => print_move(m),
        N::Pause => ".".to_owned(),
        N::Newline => "\n".to_owned(),
        N::Comment(t) => format!("//{}", t),
        N::Group(alg, amt) => {
            if let Some((a, b)) = square1_pair(alg, *amt) {
                format!("({}, {})", a, b)
            } else if *amt != 1 && matches!(alg.as_slice(), [N::Comm(..)] | [N::Conj(..)]) {
                format!("{}{}", print_node(&alg[0]), suffix(*amt))
            } else {
                format!("({}){}", enclosed(alg), suffix(*amt))
            }
        }
        N::Comm(a, b) => format!("[{}, {}]", enclosed(a), enclosed(b)),
        N::Conj(a, b) => format!("[{}: {}]", enclosed(a), enclosed(b)),
    }
}

pub fn print(nodes: &[N]) -> String {
    let mut out = String::new();
    let mut prev: Option<&N> = None;
    for n in nodes {
        match (prev, n) {
            (None, _) | (Some(N::Newline), _) | (_, N::Newline) => {}
            (Some(N::Comment(_)), _) => out.push('\n'),
            _ => out.push(' '),
        }
        out.push_str(&print_node(n));
        prev = Some(n);
    }
    out
}

/// The tree that the canonical text of `nodes` denotes. Differs from `nodes` only for trees that no
/// text denotes: those with a comment that is not followed by a newline inside the alg that
/// encloses it.
pub fn normalize(nodes: &[N], is_enclosed: bool) -> Vec<N> {
    let mut out = vec![];
    for (i, n) in nodes.iter().enumerate() {
        let last = i + 1 == nodes.len();
        out.push(match n {
            N::Group(alg, amt) => N::Group(normalize(alg, true), *amt),
            N::Comm(a, b) => N::Comm(normalize(a, true), normalize(b, true)),
            N::Conj(a, b) => N::Conj(normalize(a, true), normalize(b, true)),
            other => other.clone(),
        });
        if matches!(n, N::Comment(_)) {
            let next_is_newline = nodes.get(i + 1) == Some(&N::Newline);
            if (last && is_enclosed) || (!last && !next_is_newline) {
                out.push(N::Newline);
            }
        }
    }
    out
}

/// A tree that its own canonical text denotes.
pub fn stable(nodes: &[N]) -> Vec<N> {
    let mut tree = nodes.to_vec();
    loop {
        let next = normalize(&tree, false);
        if next == tree {
            return tree;
        }
        tree = next;
    }
}

// ---------------------------------------------------------------------------------------------
// Inversion.

pub fn invert(nodes: &[N]) -> Vec<N> {
    nodes.iter().rev().map(invert_node).collect()
}

pub fn invert_node(n: &N) -> N {
    match n {
        N::Move(m) => N::Move(m.inverted()),
        N::Group(alg, amt) => match square1_pair(alg, *amt) {
            Some((a, b)) => N::Group(vec![N::Move(mv(USQ, -a)), N::Move(mv(DSQ, -b))], 1),
            None => N::Group(alg.clone(), -amt),
        },
        N::Comm(a, b) => N::Comm(b.clone(), a.clone()),
        N::Conj(a, b) => N::Conj(a.clone(), invert(b)),
        other => other.clone(),
    }
}

/// Inverting twice gives back the tree itself, except where a `(U_SQ_3 D_SQ_4)'` becomes a tuple.
pub fn has_inverted_tuple(nodes: &[N]) -> bool {
    nodes.iter().any(|n| match n {
        N::Group(alg, amt) => {
            (*amt == -1 && square1_pair(alg, 1).is_some()) || has_inverted_tuple(alg)
        }
        N::Comm(a, b) | N::Conj(a, b) => has_inverted_tuple(a) || has_inverted_tuple(b),
        _ => false,
    })
}

pub fn count_nodes(nodes: &[N]) -> usize {
    nodes
        .iter()
        .map(|n| {
            1 + match n {
                N::Group(a, _) => count_nodes(a),
                N::Comm(a, b) | N::Conj(a, b) => count_nodes(a) + count_nodes(b),
                _ => 0,
            }
        })
        .sum()
}

pub fn depth(nodes: &[N]) -> usize {
    nodes
        .iter()
        .map(|n| match n {
            N::Group(a, _) => 1 + depth(a),
            N::Comm(a, b) | N::Conj(a, b) => 1 + depth(a).max(depth(b)),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

pub fn for_each_node(nodes: &[N], f: &mut dyn FnMut(&N)) {
    for n in nodes {
        f(n);
        match n {
            N::Group(a, _) => for_each_node(a, f),
            N::Comm(a, b) | N::Conj(a, b) => {
                for_each_node(a, f);
                for_each_node(b, f);
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
// To and from the library's tree (through its public fields).

pub fn to_lib_quantum(pre: Pre, fam: &str) -> QuantumMove {
    QuantumMove {
        family: fam.to_owned(),
        prefix: match pre {
            Pre::None => None,
            Pre::Layer(l) => Some(MovePrefix::Layer(MoveLayer { layer: l })),
            Pre::Range(o, i) => Some(MovePrefix::Range(MoveRange {
                outer_layer: o,
                inner_layer: i,
            })),
        },
    }
}

pub fn to_lib_move(m: &MMove) -> Move {
    Move {
        quantum: Arc::new(to_lib_quantum(m.pre, &m.fam)),
        amount: m.amt as i32,
    }
}

/// The parts of one alg that are the same may be one object or several: in half of the algs, equal
/// sub-algs and equal quantum moves share theirs, as the library allows.
#[derive(Default)]
struct Sharing {
    algs: HashMap<Vec<N>, Arc<Alg>>,
    quanta: HashMap<(Pre, String), Arc<QuantumMove>>,
}

fn is_shared(nodes: &[N]) -> bool {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    nodes.hash(&mut h);
    h.finish() & 1 == 0
}

pub fn to_lib(nodes: &[N]) -> Alg {
    let mut sharing = is_shared(nodes).then(Sharing::default);
    convert_alg(nodes, &mut sharing)
}

pub fn to_lib_node(n: &N) -> AlgNode {
    let mut sharing = is_shared(std::slice::from_ref(n)).then(Sharing::default);
    convert_node(n, &mut sharing)
}

fn convert_alg(nodes: &[N], sharing: &mut Option<Sharing>) -> Alg {
    Alg {
        nodes: nodes.iter().map(|n| convert_node(n, sharing)).collect(),
    }
}

fn convert_part(nodes: &[N], sharing: &mut Option<Sharing>) -> Arc<Alg> {
    if let Some(known) = sharing.as_ref().and_then(|s| s.algs.get(nodes)) {
        return Arc::clone(known);
    }
    let made = Arc::new(convert_alg(nodes, sharing));
    if let Some(s) = sharing {
        s.algs.insert(nodes.to_vec(), Arc::clone(&made));
    }
    made
}

fn convert_node(n: &N, sharing: &mut Option<Sharing>) -> AlgNode {
    match n {
        N::Move(m) => AlgNode::MoveNode(match sharing {
            None => to_lib_move(m),
            Some(s) => Move {
                quantum: Arc::clone(
                    s.quanta
                        .entry((m.pre, m.fam.clone()))
                        .or_insert_with(|| Arc::new(to_lib_quantum(m.pre, &m.fam))),
                ),
                amount: m.amt as i32,
            },
        }),
        N::Pause => AlgNode::PauseNode(Pause {}),
        N::Newline => AlgNode::NewlineNode(Newline {}),
        N::Comment(t) => AlgNode::LineCommentNode(LineComment::try_new(t).unwrap()),
        N::Group(a, amt) => AlgNode::GroupingNode(Grouping {
            alg: convert_part(a, sharing),
            amount: *amt as i32,
        }),
        N::Comm(a, b) => AlgNode::CommutatorNode(Commutator {
            a: convert_part(a, sharing),
            b: convert_part(b, sharing),
        }),
        N::Conj(a, b) => AlgNode::ConjugateNode(Conjugate {
            a: convert_part(a, sharing),
            b: convert_part(b, sharing),
        }),
    }
}

pub fn from_lib_quantum(q: &QuantumMove) -> (Pre, String) {
    let pre = match &q.prefix {
        None => Pre::None,
        Some(MovePrefix::Layer(l)) => Pre::Layer(l.layer),
        Some(MovePrefix::Range(r)) => Pre::Range(r.outer_layer, r.inner_layer),
    };
    (pre, q.family.clone())
}

pub fn from_lib_move(m: &Move) -> MMove {
    let (pre, fam) = from_lib_quantum(&m.quantum);
    MMove {
        pre,
        fam,
        amt: m.amount as i64,
    }
}

pub fn from_lib(alg: &Alg) -> Vec<N> {
    alg.nodes.iter().map(from_lib_node).collect()
}

pub fn from_lib_node(n: &AlgNode) -> N {
    match n {
        AlgNode::MoveNode(m) => N::Move(from_lib_move(m)),
        AlgNode::PauseNode(_) => N::Pause,
        AlgNode::NewlineNode(_) => N::Newline,
        AlgNode::LineCommentNode(c) => N::Comment(c.text().to_owned()),
        AlgNode::GroupingNode(g) => N::Group(from_lib(&g.alg), g.amount as i64),
        AlgNode::CommutatorNode(c) => N::Comm(from_lib(&c.a), from_lib(&c.b)),
        AlgNode::ConjugateNode(c) => N::Conj(from_lib(&c.a), from_lib(&c.b)),
    }
}

// ---------------------------------------------------------------------------------------------
// Generators.

pub const FAMILIES: &[&str] = &[
    "R", "U", "L", "D", "F", "B", "M", "E", "S", "x", "y", "z", "r", "u", "Rw", "Uw", "Rv", "BLR",
    "UFR", "ALL", "a", "Z", "_", "__", "R_", "_R", "longfamilyname_WITH_parts", "_SLASH_", "U_SQ_",
    "D_SQ_", "R_PLUS_", "ALL_PLUS_", "R_PLUSPLUS_", "D_PLUSPLUS_", "_PLUS_", "_PLUSPLUS_", "PLUS_",
    "_PLUS__PLUS_", "_PLUSPLUS__PLUS_", "R_PLUS__PLUSPLUS_", "_SLASH__PLUS_", "SLASH",
    "_SLASH__PLUSPLUS_", "R_PLUSPLUS", "U_SQ", "_SQ_", "U_SQ__PLUS_", "R_plus_",
];

pub fn gen_amount(rng: &mut Rng) -> i64 {
    match rng.below(14) {
        0..=4 => 1,
        5..=6 => -1,
        7 => 2,
        8 => -2,
        9 => 3,
        10 => 0,
        11 => rng.range(-20, 20),
        12 => *rng.pick(&[
            i32::MAX as i64,
            -(i32::MAX as i64),
            i32::MAX as i64 - 1,
            1_000_000_000,
            -1_000_000_000,
            65536,
            -65535,
            256,
            255,
            128,
            127,
            -128,
            10,
            100,
        ]),
        _ => rng.range(-(i32::MAX as i64), i32::MAX as i64),
    }
}

pub fn gen_layer(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0..=2 => rng.range(1, 5) as u32,
        3 => rng.range(0, 30) as u32,
        4 => *rng.pick(&[u32::MAX, u32::MAX - 1, i32::MAX as u32, 1 << 31, 0, 1000, 255, 256, 65536]),
        _ => rng.u64() as u32,
    }
}

pub fn gen_prefix(rng: &mut Rng) -> Pre {
    match rng.below(6) {
        0..=3 => Pre::None,
        4 => Pre::Layer(gen_layer(rng)),
        _ => Pre::Range(gen_layer(rng), gen_layer(rng)),
    }
}

pub fn gen_family(rng: &mut Rng) -> String {
    match rng.below(8) {
        0..=3 => FAMILIES[rng.below(12)].to_owned(),
        4..=5 => (*rng.pick(FAMILIES)).to_owned(),
        _ => {
            let n = 1 + rng.below(8);
            let alphabet = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ____";
            let mut s: String = (0..n).map(|_| *rng.pick(alphabet) as char).collect();
            match rng.below(8) {
                0 => s.push_str("_PLUS_"),
                1 => s.push_str("_PLUSPLUS_"),
                _ => {}
            }
            s
        }
    }
}

pub fn gen_move(rng: &mut Rng) -> MMove {
    MMove {
        pre: gen_prefix(rng),
        fam: gen_family(rng),
        amt: gen_amount(rng),
    }
}

pub fn gen_comment(rng: &mut Rng) -> String {
    let n = rng.below(8);
    let pieces = [
        "a", " ", "]", ")", "//", "/", "(", "[", ",", ":", "'", "R U", "é", "🎲", "\t", "\r", "\u{0}", "2",
        "\u{2028}", "\\", "\"", "\u{7f}",
    ];
    (0..n).map(|_| *rng.pick(&pieces)).collect()
}

pub struct GenCfg {
    pub max_depth: usize,
    pub max_len: usize,
}

/// Any tree the types can express whose families are writable and whose amounts can be negated.
pub fn gen_alg(rng: &mut Rng, cfg: &GenCfg, depth: usize) -> Vec<N> {
    let n = if depth == 0 {
        rng.below(cfg.max_len + 1)
    } else {
        rng.below((cfg.max_len / (depth + 1)).max(3) + 1)
    };
    let mut nodes: Vec<N> = vec![];
    for _ in 0..n {
        let node = match nodes.last() {
            // The same node again.
            Some(last) if rng.chance(1, 16) => last.clone(),
            _ => gen_node(rng, cfg, depth),
        };
        nodes.push(node);
    }
    nodes
}

/// The parts of a commutator or conjugate; now and then the same alg twice.
fn gen_parts(rng: &mut Rng, cfg: &GenCfg, depth: usize) -> (Vec<N>, Vec<N>) {
    let a = gen_alg(rng, cfg, depth);
    let b = if rng.chance(1, 8) {
        a.clone()
    } else {
        gen_alg(rng, cfg, depth)
    };
    (a, b)
}

/// A tree that is long or deep, with sizes around those at which a counter of some width wraps.
pub fn gen_long(rng: &mut Rng) -> Vec<N> {
    let size = match rng.weighted(&[6, 4, 2, 2, 5]) {
        0 => rng.range(253, 260) as usize,
        1 => rng.range(1_000, 5_000) as usize,
        2 => rng.range(4_094, 4_099) as usize,
        3 => rng.range(32_766, 32_770) as usize,
        _ => rng.range(65_533, 65_540) as usize,
    };
    let cfg = GenCfg {
        max_depth: 2,
        max_len: 3,
    };
    let long = |rng: &mut Rng| -> Vec<N> {
        match rng.below(4) {
            0 => {
                let m = gen_move(rng);
                (0..size).map(|_| N::Move(m.clone())).collect()
            }
            // All different.
            1 => {
                let m = gen_move(rng);
                (0..size)
                    .map(|i| {
                        N::Move(MMove {
                            amt: i as i64 + 2,
                            ..m.clone()
                        })
                    })
                    .collect()
            }
            2 => {
                let pool: Vec<N> = (0..6).map(|_| gen_node(rng, &cfg, 1)).collect();
                (0..size).map(|_| rng.pick(&pool).clone()).collect()
            }
            _ => {
                let pool: Vec<N> = (0..4)
                    .map(|_| N::Move(gen_move(rng)))
                    .chain([N::Pause, N::Newline, N::Comment("c".into())])
                    .collect();
                (0..size).map(|_| rng.pick(&pool).clone()).collect()
            }
        }
    };
    let mut inner = match rng.below(8) {
        0 => {
            let fam: String = (0..size).map(|_| *rng.pick(b"aBcD_") as char).collect();
            vec![N::Move(MMove {
                fam,
                ..gen_move(rng)
            })]
        }
        1 => {
            let text: String = (0..size).map(|_| *rng.pick(&['a', ' ', ']', 'é', '/'])).collect();
            vec![N::Comment(text)]
        }
        2 => {
            let mut alg = gen_alg(rng, &cfg, 1);
            let style = rng.below(4);
            for _ in 0..*rng.pick(&[30, 63, 64, 65, 66, 100, 127, 128, 129, 130]) {
                let other = if rng.chance(1, 4) { gen_alg(rng, &cfg, 2) } else { vec![N::Pause] };
                let kind = if style == 3 { rng.below(3) } else { style };
                let node = match kind {
                    0 => N::Group(alg, gen_amount(rng)),
                    1 if rng.chance(1, 2) => N::Comm(alg, other),
                    1 => N::Comm(other, alg),
                    _ if rng.chance(1, 2) => N::Conj(alg, other),
                    _ => N::Conj(other, alg),
                };
                alg = vec![node];
            }
            alg
        }
        _ => long(rng),
    };
    match rng.below(6) {
        0 => inner = vec![N::Group(inner, gen_amount(rng))],
        1 => inner = vec![N::Comm(inner, gen_alg(rng, &cfg, 1))],
        2 => inner = vec![N::Conj(inner, gen_alg(rng, &cfg, 1))],
        3 => inner = vec![N::Comm(gen_alg(rng, &cfg, 1), inner)],
        4 => inner = vec![N::Conj(gen_alg(rng, &cfg, 1), inner)],
        _ => {}
    }
    let mut out = gen_alg(rng, &cfg, 0);
    out.append(&mut inner);
    out.extend(gen_alg(rng, &cfg, 0));
    out
}

pub fn gen_node(rng: &mut Rng, cfg: &GenCfg, depth: usize) -> N {
    let kind = if depth >= cfg.max_depth {
        rng.weighted(&[20, 2, 2, 2])
    } else {
        rng.weighted(&[20, 2, 3, 3, 4, 4, 4, 2, 2])
    };
    match kind {
        0 => N::Move(gen_move(rng)),
        1 => N::Pause,
        2 => N::Newline,
        3 => N::Comment(gen_comment(rng)),
        4 => N::Group(gen_alg(rng, cfg, depth + 1), gen_amount(rng)),
        5 => {
            let (a, b) = gen_parts(rng, cfg, depth + 1);
            N::Comm(a, b)
        }
        6 => {
            let (a, b) = gen_parts(rng, cfg, depth + 1);
            N::Conj(a, b)
        }
        7 => {
            // Square-1 tuple, and near misses.
            let mut a = mv(USQ, gen_amount(rng));
            let mut b = mv(DSQ, gen_amount(rng));
            let mut amt = 1;
            match rng.below(8) {
                0 => amt = gen_amount(rng),
                1 => std::mem::swap(&mut a, &mut b),
                2 => a.pre = gen_prefix(rng),
                3 => b.pre = gen_prefix(rng),
                _ => {}
            }
            let mut nodes = vec![N::Move(a), N::Move(b)];
            match rng.below(12) {
                0 => nodes.push(N::Pause),
                1 => {
                    nodes.pop();
                }
                _ => {}
            }
            N::Group(nodes, amt)
        }
        _ => {
            let a = gen_alg(rng, cfg, depth + 1);
            let b = gen_alg(rng, cfg, depth + 1);
            let node = if rng.chance(1, 2) {
                N::Comm(a, b)
            } else {
                N::Conj(a, b)
            };
            N::Group(vec![node], gen_amount(rng))
        }
    }
}

/// Valid notation that is not canonical (extra spaces, explicit amounts, leading zeros, …).
pub fn sloppy_print(rng: &mut Rng, nodes: &[N]) -> String {
    let mut out = String::new();
    let mut prev: Option<&N> = None;
    spaces(rng, &mut out);
    for n in nodes {
        match (prev, n) {
            (None, _) | (Some(N::Newline), _) | (_, N::Newline) => spaces(rng, &mut out),
            (Some(N::Comment(_)), _) => {
                out.push('\n');
                spaces(rng, &mut out)
            }
            _ => {
                out.push(' ');
                spaces(rng, &mut out)
            }
        }
        // Spaces after a comment would become part of it, before the newline.
        out.push_str(&sloppy_node(rng, n));
        prev = Some(n);
    }
    if !matches!(prev, Some(N::Comment(_))) {
        spaces(rng, &mut out);
    }
    out
}

fn spaces(rng: &mut Rng, out: &mut String) {
    if rng.chance(1, 5) {
        for _ in 0..rng.below(4) {
            out.push(' ');
        }
    }
}

fn zeros(rng: &mut Rng) -> &'static str {
    if rng.chance(1, 12) {
        *rng.pick(&["0", "00", "000000000000000000000"])
    } else {
        ""
    }
}

fn sloppy_suffix(rng: &mut Rng, amt: i64) -> String {
    let mag = amt.unsigned_abs();
    let mut s = String::new();
    if mag != 1 || rng.chance(1, 6) {
        s.push_str(zeros(rng));
        s.push_str(&mag.to_string());
    }
    if amt < 0 || (amt == 0 && rng.chance(1, 3)) {
        s.push('\'');
    }
    s
}

fn sloppy_node(rng: &mut Rng, n: &N) -> String {
    match n {
        N::Move(m) => {
            let quantum = |rng: &mut Rng, fam: &str| match m.pre {
                Pre::None => fam.to_owned(),
                Pre::Layer(l) => format!("{}{}{}", zeros(rng), l, fam),
                Pre::Range(o, i) => format!("{}{}-{}{}{}", zeros(rng), o, zeros(rng), i, fam),
            };
            if m.is_plain_slash() && m.amt == 1 && rng.chance(3, 4) {
                return "/".to_owned();
            }
            if rng.chance(3, 4) {
                if let Some(base) = m.fam.strip_suffix("_PLUS_").filter(|b| !b.is_empty()) {
                    let sign = if m.amt < 0 || (m.amt == 0 && rng.chance(1, 2)) {
                        "-"
                    } else {
                        "+"
                    };
                    return format!(
                        "{}{}{}{}",
                        quantum(rng, base),
                        zeros(rng),
                        m.amt.unsigned_abs(),
                        sign
                    );
                }
                if let Some(base) = m.fam.strip_suffix("_PLUSPLUS_").filter(|b| !b.is_empty()) {
                    if m.amt.abs() == 1 {
                        let sign = if m.amt < 0 { "--" } else { "++" };
                        return format!("{}{}", quantum(rng, base), sign);
                    }
                }
            }
            let fam = m.fam.clone();
            format!("{}{}", quantum(rng, &fam), sloppy_suffix(rng, m.amt))
        }
        N::Group(alg, amt) => {
            if let Some((a, b)) = square1_pair(alg, *amt) {
                if rng.chance(3, 4) {
                    let neg0 = if a == 0 && rng.chance(1, 3) { "-" } else { "" };
                    return format!("({}{}, {})", neg0, a, b);
                }
            }
            if matches!(alg.as_slice(), [N::Comm(..)] | [N::Conj(..)]) && rng.chance(1, 2) {
                let inner = sloppy_brackets(rng, &alg[0]);
                return format!("{}{}", inner, sloppy_suffix(rng, *amt));
            }
            let inner = sloppy_enclosed(rng, alg);
            format!("({}){}", inner, sloppy_suffix(rng, *amt))
        }
        N::Comm(..) | N::Conj(..) => {
            let s = sloppy_brackets(rng, n);
            if rng.chance(1, 10) {
                s + "1"
            } else {
                s
            }
        }
        other => print_node(other),
    }
}

fn sloppy_brackets(rng: &mut Rng, n: &N) -> String {
    match n {
        N::Comm(a, b) => format!("[{},{}]", sloppy_enclosed(rng, a), sloppy_enclosed(rng, b)),
        N::Conj(a, b) => format!("[{}:{}]", sloppy_enclosed(rng, a), sloppy_enclosed(rng, b)),
        _ => unreachable!(),
    }
}

fn sloppy_enclosed(rng: &mut Rng, nodes: &[N]) -> String {
    let mut s = sloppy_print(rng, nodes);
    if matches!(nodes.last(), Some(N::Comment(_))) {
        s.push('\n');
    }
    s
}
