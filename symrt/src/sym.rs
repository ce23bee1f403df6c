use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ---------------------------------------------------------------------------------------
// Sym: a machine float of the verified code, seen as a real number (or +-inf / NaN constant)
// ---------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct Sym {
    #[doc(hidden)]
    pub id: u32,
    #[doc(hidden)]
    pub c: f64,
}

pub const fn lit(c: core::primitive::f64) -> Sym {
    Sym { id: 0, c }
}

type Mono = Vec<(u32, i16)>;
#[derive(Clone, Debug, PartialEq)]
struct Poly {
    t: Vec<(Mono, f64)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    PolyAtom,
    Floor,
    Sqrt,
    Sin,
    Cos,
    Tan,
    Atan,
    Asin,
    Acos,
    Tanh,
    Sinh,
    Cosh,
    Exp,
    Ln,
    Max,
    Min,
    Abs,
    Pow,
    Atan2,
}

#[derive(Clone, Debug)]
enum Atom {
    Var { name: String },
    Fun { op: Op, args: Vec<u32> }, // poly ids; 0 never used: constants are interned as polys too
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Rel {
    Lt, // p < 0
    Le, // p <= 0
    Eq, // p == 0
    Ne,
}

impl Rel {
    fn hold(self, v: f64) -> bool {
        match self {
            Rel::Lt => v < 0.,
            Rel::Le => v <= 0.,
            Rel::Eq => v == 0.,
            Rel::Ne => v != 0.,
        }
    }
}

/// p REL 0, p poly id
#[derive(Clone, Debug)]
struct Lit {
    p: u32,
    rel: Rel,
    neg: bool,
}

#[derive(Clone, Debug)]
enum Dec {
    Forced(bool),
    Choice(bool),
    /// concretised integer: value tried, and whether it is this value or "not this value"
    Int(i64, bool),
    Pick(i64),
}

#[derive(Default)]
struct Arena {
    atoms: Vec<Atom>,
    atom_iv: Vec<(f64, f64)>,
    atom_map: HashMap<(Op, Vec<u32>), u32>,
    var_map: HashMap<String, u32>,
    polys: Vec<Poly>,
    poly_iv: Vec<(f64, f64)>,
    poly_map: HashMap<Vec<u64>, u32>,
    bits: Vec<Sym>,
    pc: Vec<Lit>,
    dec: Vec<Dec>,
    pos: usize,
    spawned: Vec<Vec<Dec>>,
    model: Option<HashMap<u32, f64>>,
    /// the solver could not produce a model of this path's condition
    no_model: bool,
    dead: Option<Abort>,
    labels: Vec<(String, String)>,
    results: Vec<Ob>,
    solver: Option<Solver>,
    smt_queries: u64,
    smt_ms: f64,
    cache: HashMap<String, Raw>,
    unknown_branches: u64,
    cvc_used: u64,
    catch_depth: u32,
    last_panic: Option<String>,
    stray: Option<String>,
    split_memo: HashMap<u32, Sym>,
    splits: usize,
    /// bounds were learnt from the path condition / atoms known to be constant
    tightened: bool,
    fixed: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Abort {
    /// path condition is unsatisfiable / `assume` is false: nothing to prove here
    Infeasible,
    /// the engine cannot go on: undecided
    Unsupported(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Normal,
    Smt,
    Eval,
    Failed,
    Undecided,
}

#[derive(Clone, Debug)]
pub struct Ob {
    pub name: String,
    pub verdict: Verdict,
    pub detail: String,
    pub model: Vec<(String, f64)>,
}

thread_local! {
    static A: RefCell<Arena> = RefCell::new(Arena::default());
}

fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    A.with(|a| f(&mut a.borrow_mut()))
}

struct EngineAbort;

fn abort(a: Abort) -> ! {
    with(|ar| {
        if ar.dead.is_none() {
            ar.dead = Some(a);
        }
    });
    std::panic::panic_any(EngineAbort)
}

pub fn unsupported(s: &str) -> ! {
    abort(Abort::Unsupported(s.to_string()))
}

const CLEAN: f64 = 1e-12;

fn round_sig(x: f64) -> f64 {
    if x == 0. || !x.is_finite() {
        return x;
    }
    let s: String = format!("{:.10e}", x);
    s.parse().unwrap()
}

impl Arena {
    fn reset_path(&mut self) {
        self.atoms.clear();
        self.atom_iv.clear();
        self.atom_map.clear();
        self.var_map.clear();
        self.polys.clear();
        self.poly_iv.clear();
        self.poly_map.clear();
        self.bits.clear();
        self.pc.clear();
        self.dec.clear();
        self.pos = 0;
        self.spawned.clear();
        self.model = Some(HashMap::new());
        self.no_model = false;
        self.dead = None;
        self.labels.clear();
        self.results.clear();
        self.catch_depth = 0;
        self.split_memo.clear();
        self.splits = 0;
        self.tightened = false;
        self.fixed = 0;
        self.last_panic = None;
        self.stray = None;
        // poly id 0 is reserved
        self.polys.push(Poly { t: vec![] });
        self.poly_iv.push((0., 0.));
    }

    fn key(p: &Poly) -> Vec<u64> {
        let mut k = Vec::with_capacity(p.t.len() * 4);
        for (m, c) in &p.t {
            k.push(u64::MAX);
            for (a, e) in m {
                k.push(((*a as u64) << 16) | (*e as u16 as u64));
            }
            k.push(c.to_bits());
        }
        k
    }

    fn intern(&mut self, p: Poly) -> u32 {
        let k = Self::key(&p);
        if let Some(i) = self.poly_map.get(&k) {
            return *i;
        }
        let iv = self.interval(&p);
        let i = self.polys.len() as u32;
        self.polys.push(p);
        self.poly_iv.push(iv);
        self.poly_map.insert(k, i);
        i
    }

    fn interval(&self, p: &Poly) -> (f64, f64) {
        let mut lo = 0.;
        let mut hi = 0.;
        for (m, c) in &p.t {
            let mut iv = (*c, *c);
            for (a, e) in m {
                let (al, ah) = self.atom_iv[*a as usize];
                let pw = if *e < 0 {
                    // inverse
                    if al > 0. || ah < 0. {
                        let (x, y) = (1. / al, 1. / ah);
                        ipow((x.min(y), x.max(y)), (-*e) as u32)
                    } else {
                        (f64::NEG_INFINITY, f64::INFINITY)
                    }
                } else {
                    ipow((al, ah), *e as u32)
                };
                iv = imul(iv, pw);
            }
            lo += iv.0;
            hi += iv.1;
        }
        if lo.is_nan() {
            lo = f64::NEG_INFINITY
        }
        if hi.is_nan() {
            hi = f64::INFINITY
        }
        (lo, hi)
    }

    fn poly(&self, s: Sym) -> Poly {
        if s.id != 0 {
            self.polys[s.id as usize].clone()
        } else if s.c == 0. {
            Poly { t: vec![] }
        } else {
            Poly { t: vec![(vec![], s.c)] }
        }
    }

    fn mk(&mut self, p: Poly) -> Sym {
        if p.t.is_empty() {
            return lit(0.);
        }
        if p.t.len() == 1 && p.t[0].0.is_empty() {
            return lit(p.t[0].1);
        }
        if p.t.len() > 200_000 {
            self.dead = Some(Abort::Unsupported("polynomial too large".into()));
            return lit(0.);
        }
        let id = self.intern(p);
        Sym { id, c: 0. }
    }

    fn add_poly(&self, a: &Poly, b: &Poly, kb: f64) -> Poly {
        let mut t = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            let o = if i == a.t.len() {
                Ordering::Greater
            } else if j == b.t.len() {
                Ordering::Less
            } else {
                a.t[i].0.cmp(&b.t[j].0)
            };
            match o {
                Ordering::Less => {
                    t.push(a.t[i].clone());
                    i += 1;
                }
                Ordering::Greater => {
                    let v = b.t[j].1 * kb;
                    if v != 0. {
                        t.push((b.t[j].0.clone(), v));
                    }
                    j += 1;
                }
                Ordering::Equal => {
                    let x = a.t[i].1;
                    let y = b.t[j].1 * kb;
                    let s = x + y;
                    if s.abs() > CLEAN * x.abs().max(y.abs()) {
                        t.push((a.t[i].0.clone(), s));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        Poly { t }
    }

    fn mul_poly(&self, a: &Poly, b: &Poly) -> Poly {
        if a.t.len() == 1 && a.t[0].0.is_empty() {
            return scale(b, a.t[0].1);
        }
        if b.t.len() == 1 && b.t[0].0.is_empty() {
            return scale(a, b.t[0].1);
        }
        let mut acc: HashMap<Mono, (f64, f64)> = HashMap::new();
        for (ma, ca) in &a.t {
            for (mb, cb) in &b.t {
                let m = mul_mono(ma, mb);
                let v = ca * cb;
                let e = acc.entry(m).or_insert((0., 0.));
                e.0 += v;
                e.1 = e.1.max(v.abs());
            }
        }
        let mut t: Vec<(Mono, f64)> = acc
            .into_iter()
            .filter(|(_, (s, mx))| s.abs() > CLEAN * mx)
            .map(|(m, (s, _))| (m, s))
            .collect();
        t.sort_by(|x, y| x.0.cmp(&y.0));
        Poly { t }
    }

    fn canon(&mut self, s: Sym) -> u32 {
        // canonical poly id of a function argument (coefficients rounded)
        let mut p = self.poly(s);
        for t in p.t.iter_mut() {
            t.1 = round_sig(t.1);
        }
        if p.t.is_empty() {
            p.t.push((vec![], 0.));
        }
        self.intern(p)
    }

    fn fun(&mut self, op: Op, args: &[Sym]) -> Sym {
        let mut ids: Vec<u32> = args.iter().map(|a| self.canon(*a)).collect();
        if matches!(op, Op::Max | Op::Min) {
            ids.sort();
        }
        let a = self.fun_atom(op, ids);
        self.mk(Poly { t: vec![(vec![(a, 1)], 1.)] })
    }

    /// (c, p) if the value is c * exp(p) with c > 0
    fn as_exp(&mut self, v: Sym) -> Option<(f64, Sym)> {
        let t = &self.polys[v.id as usize].t;
        if t.len() != 1 || t[0].1 <= 0. || t[0].0.len() != 1 || t[0].0[0].1 != 1 {
            return None;
        }
        let c = t[0].1;
        match &self.atoms[t[0].0[0].0 as usize] {
            Atom::Fun { op: Op::Exp, args } => {
                let p = self.polys[args[0] as usize].clone();
                Some((c, self.mk(p)))
            }
            _ => None,
        }
    }

    fn fun_atom(&mut self, op: Op, ids: Vec<u32>) -> u32 {
        if let Some(a) = self.atom_map.get(&(op, ids.clone())) {
            return *a;
        }
        let ivs: Vec<(f64, f64)> = ids.iter().map(|i| self.poly_iv[*i as usize]).collect();
        let iv = match op {
            Op::PolyAtom => ivs[0],
            Op::Floor => (ivs[0].0.floor(), ivs[0].1.floor()),
            Op::Sqrt => (ivs[0].0.max(0.).sqrt() * (1. - 1e-12), ivs[0].1.max(0.).sqrt() * (1. + 1e-12)),
            Op::Sin | Op::Cos | Op::Tanh => (-1., 1.),
            Op::Atan | Op::Asin => (-1.5708, 1.5708),
            Op::Acos => (0., 3.1416),
            Op::Atan2 => (-3.1416, 3.1416),
            Op::Cosh => (1., f64::INFINITY),
            Op::Exp => (
                ivs[0].0.exp() * (1. - 1e-9),
                ivs[0].1.exp() * (1. + 1e-9),
            ),
            Op::Ln => (
                if ivs[0].0 > 0. { ivs[0].0.ln() - 1e-9 } else { f64::NEG_INFINITY },
                if ivs[0].1 > 0. { ivs[0].1.ln() + 1e-9 } else { f64::INFINITY },
            ),
            Op::Max => (ivs[0].0.max(ivs[1].0), ivs[0].1.max(ivs[1].1)),
            Op::Min => (ivs[0].0.min(ivs[1].0), ivs[0].1.min(ivs[1].1)),
            Op::Abs => {
                let (l, h) = ivs[0];
                if l >= 0. {
                    (l, h)
                } else if h <= 0. {
                    (-h, -l)
                } else {
                    (0., h.max(-l))
                }
            }
            Op::Pow => {
                // base positive by construction
                let c = [
                    ivs[0].0.max(0.).powf(ivs[1].0),
                    ivs[0].0.max(0.).powf(ivs[1].1),
                    ivs[0].1.powf(ivs[1].0),
                    ivs[0].1.powf(ivs[1].1),
                ];
                let l = c.iter().cloned().fold(f64::INFINITY, f64::min);
                let h = c.iter().cloned().fold(0., f64::max);
                if l.is_nan() || h.is_nan() {
                    (0., f64::INFINITY)
                } else {
                    (l * (1. - 1e-9), h * (1. + 1e-9))
                }
            }
            _ => (f64::NEG_INFINITY, f64::INFINITY),
        };
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom::Fun { op, args: ids.clone() });
        self.atom_iv.push(iv);
        self.atom_map.insert((op, ids), a);
        a
    }

    // --------------------------------------------------------------- numeric evaluation

    fn eval_poly(&self, id: u32, m: &HashMap<u32, f64>, memo: &mut HashMap<u32, f64>) -> Option<f64> {
        let p = &self.polys[id as usize];
        let mut s = 0.;
        for (mono, c) in &p.t {
            let mut v = *c;
            for (a, e) in mono {
                v *= self.eval_atom(*a, m, memo)?.powi(*e as i32);
            }
            s += v;
        }
        Some(s)
    }

    fn eval_atom(&self, a: u32, m: &HashMap<u32, f64>, memo: &mut HashMap<u32, f64>) -> Option<f64> {
        if let Some(v) = memo.get(&a) {
            return Some(*v);
        }
        let v = match &self.atoms[a as usize] {
            Atom::Var { .. } => match m.get(&a) {
                Some(v) => *v,
                None => return None,
            },
            Atom::Fun { op, args } => {
                let mut x = [0.; 2];
                for (i, id) in args.iter().enumerate() {
                    x[i] = self.eval_poly(*id, m, memo)?;
                }
                match op {
                    Op::PolyAtom => x[0],
                    Op::Floor => x[0].floor(),
                    Op::Sqrt => x[0].sqrt(),
                    Op::Sin => x[0].sin(),
                    Op::Cos => x[0].cos(),
                    Op::Tan => x[0].tan(),
                    Op::Atan => x[0].atan(),
                    Op::Asin => x[0].asin(),
                    Op::Acos => x[0].acos(),
                    Op::Tanh => x[0].tanh(),
                    Op::Sinh => x[0].sinh(),
                    Op::Cosh => x[0].cosh(),
                    Op::Exp => x[0].exp(),
                    Op::Ln => x[0].ln(),
                    Op::Max => x[0].max(x[1]),
                    Op::Min => x[0].min(x[1]),
                    Op::Abs => x[0].abs(),
                    Op::Pow => x[0].powf(x[1]),
                    Op::Atan2 => x[0].atan2(x[1]),
                }
            }
        };
        memo.insert(a, v);
        Some(v)
    }

    // --------------------------------------------------------------- SMT

    fn smt_name(a: u32) -> String {
        format!("a{}", a)
    }

    fn emit_poly(&self, id: u32) -> String {
        let p = &self.polys[id as usize];
        if p.t.is_empty() {
            return "0.0".into();
        }
        let terms: Vec<String> = p
            .t
            .iter()
            .map(|(m, c)| {
                let mut f = vec![];
                if *c != 1. || m.is_empty() {
                    f.push(num(*c));
                }
                for (a, e) in m {
                    for _ in 0..e.abs() {
                        if *e < 0 {
                            f.push(format!("i{}", a));
                        } else {
                            f.push(Self::smt_name(*a));
                        }
                    }
                }
                if f.len() == 1 {
                    f.pop().unwrap()
                } else {
                    format!("(* {})", f.join(" "))
                }
            })
            .collect();
        if terms.len() == 1 {
            terms[0].clone()
        } else {
            format!("(+ {})", terms.join(" "))
        }
    }

    fn collect(&self, id: u32, seen: &mut Vec<u32>, inv: &mut Vec<u32>, mark: &mut HashMap<u32, ()>) {
        let p = &self.polys[id as usize];
        for (m, _) in &p.t {
            for (a, e) in m {
                if !mark.contains_key(a) {
                    mark.insert(*a, ());
                    if let Atom::Fun { args, .. } = &self.atoms[*a as usize] {
                        for i in args.clone() {
                            self.collect(i, seen, inv, mark);
                        }
                    }
                    seen.push(*a);
                }
                if *e < 0 && !inv.contains(a) {
                    inv.push(*a);
                }
            }
        }
    }

    /// min / max / abs atoms a value is made of (and whether they sit inside another function)
    fn cases(&self, id: u32, inside: bool, out: &mut Vec<(u32, bool)>, mark: &mut HashMap<(u32, bool), ()>) {
        if mark.insert((id, inside), ()).is_some() {
            return;
        }
        for (m, _) in &self.polys[id as usize].t {
            for (a, _) in m {
                if let Atom::Fun { op, args } = &self.atoms[*a as usize] {
                    let case = matches!(op, Op::Max | Op::Min | Op::Abs);
                    if case && !out.iter().any(|x| x.0 == *a) {
                        out.push((*a, inside));
                    }
                    for i in args {
                        self.cases(*i, inside || !case, out, mark);
                    }
                }
            }
        }
    }

    /// do two arguments differ by a quarter turn
    fn quarter(&self, x: u32, y: u32) -> bool {
        let d = self.add_poly(&self.polys[x as usize], &self.polys[y as usize], -1.);
        d.t.len() == 1 && d.t[0].0.is_empty() && (d.t[0].1.abs() - std::f64::consts::FRAC_PI_2).abs() < 1e-8
    }

    fn emit_lit(&self, l: &Lit) -> String {
        let p = self.emit_poly(l.p);
        let s = match l.rel {
            Rel::Lt => format!("(< {} 0.0)", p),
            Rel::Le => format!("(<= {} 0.0)", p),
            Rel::Eq => format!("(= {} 0.0)", p),
            Rel::Ne => format!("(not (= {} 0.0))", p),
        };
        if l.neg {
            format!("(not {})", s)
        } else {
            s
        }
    }

    /// SMT problem: every literal of `pc` and every raw assertion of `extra`
    fn problem(&self, lits: &[&Lit], extra: &[String], extra_polys: &[u32]) -> (String, Vec<u32>) {
        let mut seen = vec![];
        let mut inv = vec![];
        let mut mark = HashMap::new();
        for l in lits {
            self.collect(l.p, &mut seen, &mut inv, &mut mark);
        }
        for p in extra_polys {
            self.collect(*p, &mut seen, &mut inv, &mut mark);
        }
        let mut s = String::new();
        let mut vars = vec![];
        for a in &seen {
            let n = Self::smt_name(*a);
            let (lo, hi) = self.atom_iv[*a as usize];
            match &self.atoms[*a as usize] {
                Atom::Var { .. } => {
                    vars.push(*a);
                    s += &format!("(declare-const {} Real)\n", n);
                    if lo.is_finite() {
                        s += &format!("(assert (<= {} {}))\n", num(lo), n);
                    }
                    if hi.is_finite() {
                        s += &format!("(assert (<= {} {}))\n", n, num(hi));
                    }
                }
                Atom::Fun { op, args } => {
                    let e: Vec<String> = args.iter().map(|i| self.emit_poly(*i)).collect();
                    match op {
                        Op::PolyAtom => s += &format!("(define-fun {} () Real {})\n", n, e[0]),
                        Op::Max => {
                            s += &format!(
                                "(define-fun {} () Real (ite (>= {} {}) {} {}))\n",
                                n, e[0], e[1], e[0], e[1]
                            )
                        }
                        Op::Min => {
                            s += &format!(
                                "(define-fun {} () Real (ite (<= {} {}) {} {}))\n",
                                n, e[0], e[1], e[0], e[1]
                            )
                        }
                        Op::Abs => {
                            s += &format!(
                                "(define-fun {} () Real (ite (>= {} 0.0) {} (- {})))\n",
                                n, e[0], e[0], e[0]
                            )
                        }
                        Op::Floor => {
                            s += &format!("(declare-const f{} Int)\n(define-fun {} () Real (to_real f{}))\n(assert (and (<= {} {}) (< {} (+ {} 1.0))))\n", a, n, a, n, e[0], e[0], n);
                        }
                        Op::Sqrt => {
                            s += &format!("(declare-const {} Real)\n(assert (and (>= {} 0.0) (= (* {} {}) {})))\n", n, n, n, n, e[0]);
                        }
                        _ => {
                            s += &format!("(declare-const {} Real)\n", n);
                            if lo.is_finite() {
                                s += &format!("(assert (<= {} {}))\n", num(lo), n);
                            }
                            if hi.is_finite() {
                                s += &format!("(assert (<= {} {}))\n", n, num(hi));
                            }
                            if matches!(op, Op::Exp | Op::Pow) {
                                s += &format!("(assert (> {} 0.0))\n", n);
                            }
                        }
                    }
                }
            }
            if inv.contains(a) {
                s += &format!(
                    "(declare-const i{} Real)\n(assert (= (* i{} {}) 1.0))\n",
                    a, a, n
                );
            }
        }
        // congruence / monotonicity facts for opaque functions of the same kind
        for (k, a) in seen.iter().enumerate() {
            for b in &seen[..k] {
                if let (Atom::Fun { op: o1, args: x1 }, Atom::Fun { op: o2, args: x2 }) =
                    (&self.atoms[*a as usize], &self.atoms[*b as usize])
                {
                    if o1 == o2 && x1.len() == 1 {
                        let (p, q) = (self.emit_poly(x1[0]), self.emit_poly(x2[0]));
                        match o1 {
                            Op::Exp | Op::Ln | Op::Atan | Op::Asin | Op::Tanh => {
                                s += &format!(
                                    "(assert (= (< {} {}) (< a{} a{})))\n(assert (= (= {} {}) (= a{} a{})))\n",
                                    p, q, a, b, p, q, a, b
                                );
                            }
                            Op::Acos => {
                                s += &format!(
                                    "(assert (= (< {} {}) (> a{} a{})))\n",
                                    p, q, a, b
                                );
                            }
                            Op::Sin if self.quarter(x1[0], x2[0]) => {
                                s += &format!("(assert (= (+ (* a{a} a{a}) (* a{b} a{b})) 1.0))\n");
                            }
                            Op::Sin | Op::Cos | Op::Tan => {
                                s += &format!("(assert (=> (= {} {}) (= a{} a{})))\n", p, q, a, b);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        for l in lits {
            s += &format!("(assert {})\n", self.emit_lit(l));
        }
        for e in extra {
            s += &format!("(assert {})\n", e);
        }
        (s, vars)
    }

    fn query(&mut self, prob: &str, vars: &[u32], timeout_ms: u32, second: bool) -> Answer {
        // queries are recognised up to the names of their variables
        let (key, order) = alpha(prob, vars);
        let back = |r: &Raw| match r {
            Raw::Unsat => Answer::Unsat,
            Raw::Sat(vals) => Answer::Sat(order.iter().map(|i| vars[*i]).zip(vals.iter().cloned()).collect()),
            Raw::Unknown => Answer::Unknown,
        };
        if let Some(a) = self.cache.get(&key) {
            return back(a);
        }
        if std::env::var("VC_DUMP").is_ok() {
            eprintln!("---\n{}", key);
        }
        let t = std::time::Instant::now();
        self.smt_queries += 1;
        if self.solver.is_none() {
            self.solver = Some(Solver::start());
        }
        let names: Vec<String> = vars.iter().map(|v| Self::smt_name(*v)).collect();
        let mut r = self.solver.as_mut().unwrap().check(prob, &names, timeout_ms);
        if matches!(r, Raw::Unknown) && second {
            self.cvc_used += 1;
            r = cvc5(prob, &names, timeout_ms);
        }
        self.smt_ms += t.elapsed().as_secs_f64() * 1000.;
        let r = match r {
            Raw::Sat(vals) => Raw::Sat(order.iter().map(|i| vals[*i]).collect()),
            r => r,
        };
        let ans = back(&r);
        if self.cache.len() < 200_000 {
            self.cache.insert(key, r);
        }
        ans
    }

    /// literals of the path condition in the cone of influence of `l`
    fn slice<'a>(&self, pc: &'a [Lit], polys: &[u32]) -> Vec<&'a Lit> {
        let vars_of = |id: u32| -> Vec<u32> {
            let mut seen = vec![];
            let mut inv = vec![];
            let mut mark = HashMap::new();
            self.collect(id, &mut seen, &mut inv, &mut mark);
            seen.into_iter()
                .filter(|a| matches!(self.atoms[*a as usize], Atom::Var { .. }))
                .collect()
        };
        let mut cone: Vec<u32> = vec![];
        for p in polys {
            cone.extend(vars_of(*p));
        }
        let lv: Vec<Vec<u32>> = pc.iter().map(|l| vars_of(l.p)).collect();
        let mut inc = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !inc[i] && lv[i].iter().any(|v| cone.contains(v)) {
                    inc[i] = true;
                    ch = true;
                    for v in &lv[i] {
                        if !cone.contains(v) {
                            cone.push(*v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        pc.iter().zip(inc).filter(|(_, i)| *i).map(|(l, _)| l).collect()
    }

    fn sat_with(&mut self, l: &Lit) -> Answer {
        let pc = self.pc.clone();
        let mut ls = self.slice(&pc, &[l.p]);
        ls.push(l);
        let (p, v) = self.problem(&ls, &[], &[]);
        self.query(&p, &v, 3000, true)
    }

    fn merge_model(&mut self, m: &HashMap<u32, f64>) {
        let mut base = self.model.take().unwrap_or_default();
        for (k, v) in m {
            base.insert(*k, *v);
        }
        self.model = Some(base);
    }

    fn default_model_value(&self, a: u32) -> f64 {
        let (lo, hi) = self.atom_iv[a as usize];
        if lo.is_finite() && hi.is_finite() {
            // an off-centre point avoids accidental equalities
            lo + (hi - lo) * (0.37 + 0.013 * ((a * 7919) % 17) as f64)
        } else if lo.is_finite() {
            lo + 1.37
        } else if hi.is_finite() {
            hi - 1.37
        } else {
            0.37 + a as f64 * 0.011
        }
    }

    fn full_model(&self, m: &HashMap<u32, f64>) -> Vec<(String, f64)> {
        let mut out = vec![];
        for (i, a) in self.atoms.iter().enumerate() {
            if let Atom::Var { name } = a {
                let v = m
                    .get(&(i as u32))
                    .cloned()
                    .or_else(|| self.model.as_ref().and_then(|b| b.get(&(i as u32)).cloned()))
                    .unwrap_or_else(|| self.default_model_value(i as u32));
                out.push((name.clone(), v));
            }
        }
        out
    }

    fn neg(l: &Lit) -> Lit {
        Lit { p: l.p, rel: l.rel, neg: !l.neg }
    }

    fn push_pc(&mut self, l: Lit) {
        self.pc.push(l.clone());
        let p = self.polys[l.p as usize].clone();
        if let Some((a, c, k)) = self.affine(&p) {
            let b = -k / c;
            // c * a + k REL 0
            match (l.rel, l.neg) {
                (Rel::Lt, n) | (Rel::Le, n) => {
                    let strict = (l.rel == Rel::Lt) != n;
                    if (c > 0.) != n {
                        self.bound(a, f64::NEG_INFINITY, b, strict);
                    } else {
                        self.bound(a, b, f64::INFINITY, strict);
                    }
                }
                (Rel::Eq, false) | (Rel::Ne, true) => self.bound(a, b, b, false),
                _ => {}
            }
        }
    }

    /// c * atom + k
    fn affine(&self, p: &Poly) -> Option<(u32, f64, f64)> {
        let (k, t) = match p.t.len() {
            1 => (0., &p.t[0]),
            2 if p.t[0].0.is_empty() => (p.t[0].1, &p.t[1]),
            _ => return None,
        };
        if t.0.len() == 1 && t.0[0].1 == 1 {
            Some((t.0[0].0, t.1, k))
        } else {
            None
        }
    }

    fn bound(&mut self, a: u32, lo: f64, hi: f64, strict: bool) {
        let (mut l, mut h) = self.atom_iv[a as usize];
        let (mut lo, mut hi) = (lo, hi);
        let mut arg = None;
        if let Atom::Fun { op: Op::Floor, args } = &self.atoms[a as usize] {
            let near = |x: f64| if (x - x.round()).abs() < 1e-9 { x.round() } else { x };
            lo = near(lo);
            hi = near(hi);
            if strict && hi == hi.floor() {
                hi -= 1.;
            }
            if strict && lo == lo.ceil() {
                lo += 1.;
            }
            lo = lo.ceil();
            hi = hi.floor();
            arg = Some(args[0]);
        }
        if !(lo > l || hi < h) {
            return;
        }
        l = l.max(lo);
        h = h.min(hi);
        if l > h {
            // contradiction: left to the solver
            return;
        }
        self.atom_iv[a as usize] = (l, h);
        self.tightened = true;
        if let Some(p) = arg {
            if l == h {
                self.fixed += 1;
            }
            let p = self.polys[p as usize].clone();
            if let Some((b, c, k)) = self.affine(&p) {
                // l <= c * b + k < h + 1
                let (x, y) = ((l - k) / c, (h + 1. - k) / c);
                if matches!(self.atoms[b as usize], Atom::Var { .. }) {
                    self.bound(b, x.min(y), x.max(y), false);
                }
            }
        }
    }

    /// bounds of a polynomial under what has been learnt on this path
    fn refine(&mut self, id: u32, depth: u32) -> (f64, f64) {
        let atoms: Vec<u32> = self.polys[id as usize].t.iter().flat_map(|t| t.0.iter().map(|x| x.0)).collect();
        if atoms.len() > 64 {
            return self.poly_iv[id as usize];
        }
        for a in atoms {
            if let Atom::Fun { op, args } = self.atoms[a as usize].clone() {
                if depth == 0 || !matches!(op, Op::Floor | Op::Max | Op::Min | Op::Abs | Op::PolyAtom | Op::Sqrt) {
                    continue;
                }
                let v: Vec<(f64, f64)> = args.iter().map(|x| self.refine(*x, depth - 1)).collect();
                let n = match op {
                    Op::Floor => (v[0].0.floor(), v[0].1.floor()),
                    Op::Max => (v[0].0.max(v[1].0), v[0].1.max(v[1].1)),
                    Op::Min => (v[0].0.min(v[1].0), v[0].1.min(v[1].1)),
                    Op::Sqrt => (v[0].0.max(0.).sqrt() * (1. - 1e-12), v[0].1.max(0.).sqrt() * (1. + 1e-12)),
                    Op::Abs if v[0].0 >= 0. => v[0],
                    Op::Abs if v[0].1 <= 0. => (-v[0].1, -v[0].0),
                    Op::Abs => (0., v[0].1.max(-v[0].0)),
                    _ => v[0],
                };
                let o = self.atom_iv[a as usize];
                let n = (n.0.max(o.0), n.1.min(o.1));
                if n.0 <= n.1 {
                    self.atom_iv[a as usize] = n;
                }
            }
        }
        let p = self.polys[id as usize].clone();
        let n = self.interval(&p);
        let o = self.poly_iv[id as usize];
        let n = (n.0.max(o.0), n.1.min(o.1));
        if n.0 <= n.1 {
            self.poly_iv[id as usize] = n;
            n
        } else {
            o
        }
    }

    /// replaces floors whose value is known on this path
    fn fold(&mut self, s: Sym) -> Sym {
        if s.id == 0 || self.fixed == 0 {
            return s;
        }
        let p = self.polys[s.id as usize].clone();
        let known = |a: u32| {
            let (l, h) = self.atom_iv[a as usize];
            l == h && matches!(self.atoms[a as usize], Atom::Fun { op: Op::Floor, .. })
        };
        if !p.t.iter().any(|t| t.0.iter().any(|x| known(x.0))) {
            return s;
        }
        let mut out = Poly { t: vec![] };
        for (m, c) in &p.t {
            let mut k = *c;
            let mut rest: Mono = vec![];
            for (a, e) in m {
                if known(*a) {
                    k *= self.atom_iv[*a as usize].0.powi(*e as i32);
                } else {
                    rest.push((*a, *e));
                }
            }
            if !k.is_finite() {
                return s;
            }
            if k != 0. {
                out = self.add_poly(&out, &Poly { t: vec![(rest, k)] }, 1.);
            }
        }
        self.mk(out)
    }

    fn decide(&mut self, l: Lit) -> Result<bool, Abort> {
        if let Some(d) = &self.dead {
            return Err(d.clone());
        }
        // interval
        let (mut lo, mut hi) = self.poly_iv[l.p as usize];
        if self.tightened {
            (lo, hi) = self.refine(l.p, 4);
        }
        let q = match l.rel {
            Rel::Lt => {
                if hi < 0. {
                    Some(true)
                } else if lo >= 0. {
                    Some(false)
                } else {
                    None
                }
            }
            Rel::Le => {
                if hi <= 0. {
                    Some(true)
                } else if lo > 0. {
                    Some(false)
                } else {
                    None
                }
            }
            Rel::Eq | Rel::Ne => {
                if lo > 0. || hi < 0. {
                    Some(l.rel == Rel::Ne)
                } else {
                    None
                }
            }
        };
        if let Some(b) = q {
            return Ok(b != l.neg);
        }
        // already known
        for k in &self.pc {
            if k.p == l.p && k.rel == l.rel {
                return Ok(k.neg == l.neg);
            }
        }
        // decided in the prefix we follow
        if self.pos < self.dec.len() {
            let d = self.dec[self.pos].clone();
            self.pos += 1;
            return match d {
                Dec::Forced(b) => Ok(b),
                Dec::Choice(b) => {
                    self.push_pc(if b { l } else { Self::neg(&l) });
                    self.refresh_model();
                    Ok(b)
                }
                _ => Err(Abort::Unsupported("replay divergence".into())),
            };
        }
        // which side does the current model satisfy?
        let mut known: Option<bool> = None;
        if self.model.is_none() && !self.no_model {
            self.no_model = !self.ensure_model();
        }
        if let Some(m) = &self.model {
            let mut m2 = m.clone();
            for (i, a) in self.atoms.iter().enumerate() {
                if let Atom::Var { .. } = a {
                    if !m2.contains_key(&(i as u32)) {
                        m2.insert(i as u32, self.default_model_value(i as u32));
                    }
                }
            }
            if let Some(v) = self.eval_poly(l.p, &m2, &mut HashMap::new()) {
                if v.is_finite() && v.abs() > 1e-7 {
                    known = Some(l.rel.hold(v) != l.neg);
                    self.model = Some(m2);
                }
            }
        }
        let (mut t, mut f) = (known == Some(true), known == Some(false));
        let mut tm = None;
        let mut fm = None;
        if !t {
            match self.sat_with(&l) {
                Answer::Sat(m) => {
                    t = true;
                    tm = Some(m);
                }
                Answer::Unsat => {}
                Answer::Unknown => {
                    self.unknown_branches += 1;
                    t = true;
                }
            }
        }
        if !f {
            match self.sat_with(&Self::neg(&l)) {
                Answer::Sat(m) => {
                    f = true;
                    fm = Some(m);
                }
                Answer::Unsat => {}
                Answer::Unknown => {
                    self.unknown_branches += 1;
                    f = true;
                }
            }
        }
        let r = match (t, f) {
            (false, false) => return Err(Abort::Infeasible),
            (true, false) => {
                self.dec.push(Dec::Forced(true));
                true
            }
            (false, true) => {
                self.dec.push(Dec::Forced(false));
                false
            }
            (true, true) => {
                let b = known.unwrap_or(true);
                let mut alt = self.dec.clone();
                alt.push(Dec::Choice(!b));
                self.spawned.push(alt);
                self.dec.push(Dec::Choice(b));
                self.push_pc(if b { l } else { Self::neg(&l) });
                b
            }
        };
        self.pos += 1;
        if known.is_none() {
            let m = if r { tm } else { fm };
            match m {
                // the answer covers a slice of the path condition only
                Some(m) if self.model.is_some() => self.merge_model(&m),
                _ => self.model = None,
            }
        }
        Ok(r)
    }

    /// the model may have been invalidated by a followed prefix
    fn refresh_model(&mut self) {
        self.model = None;
    }

    fn ensure_model(&mut self) -> bool {
        if self.model.is_some() {
            return true;
        }
        let pc = self.pc.clone();
        let ls: Vec<&Lit> = pc.iter().collect();
        let (p, v) = self.problem(&ls, &[], &[]);
        match self.query(&p, &v, 3000, true) {
            Answer::Sat(m) => {
                self.model = Some(HashMap::new());
                self.merge_model(&m);
                true
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
enum Answer {
    Sat(HashMap<u32, f64>),
    Unsat,
    Unknown,
}

/// the problem with its variables numbered by first appearance, and which entries of `vars`
/// these are, in that order
fn alpha(prob: &str, vars: &[u32]) -> (String, Vec<usize>) {
    let b = prob.as_bytes();
    let mut out = String::with_capacity(prob.len());
    let mut map: HashMap<&str, usize> = HashMap::new();
    let mut order = vec![];
    let mut i = 0;
    let mut start = 0;
    while i < b.len() {
        let head = matches!(b[i], b'a' | b'i' | b'f')
            && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'-' || b[i - 1] == b'_'))
            && i + 1 < b.len()
            && b[i + 1].is_ascii_digit();
        if !head {
            i += 1;
            continue;
        }
        let mut j = i + 1;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        out.push_str(&prob[start..=i]);
        let num = &prob[i + 1..j];
        let n = map.len();
        let k = *map.entry(num).or_insert_with(|| {
            let id: u32 = num.parse().unwrap();
            if let Some(p) = vars.iter().position(|v| *v == id) {
                order.push(p);
            }
            n
        });
        out.push_str(&k.to_string());
        i = j;
        start = j;
    }
    out.push_str(&prob[start..]);
    (out, order)
}

fn ipow(x: (f64, f64), e: u32) -> (f64, f64) {
    if e == 0 {
        return (1., 1.);
    }
    if e % 2 == 1 {
        (x.0.powi(e as i32), x.1.powi(e as i32))
    } else {
        let a = x.0.powi(e as i32);
        let b = x.1.powi(e as i32);
        if x.0 <= 0. && x.1 >= 0. {
            (0., a.max(b))
        } else {
            (a.min(b), a.max(b))
        }
    }
}

fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let m = |x: f64, y: f64| if x == 0. || y == 0. { 0. } else { x * y };
    let c = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
    (
        c.iter().cloned().fold(f64::INFINITY, f64::min),
        c.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
    )
}

fn scale(p: &Poly, k: f64) -> Poly {
    if k == 0. {
        return Poly { t: vec![] };
    }
    Poly {
        t: p.t.iter().map(|(m, c)| (m.clone(), c * k)).collect(),
    }
}

fn mul_mono(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    r
}

fn num(c: f64) -> String {
    let s = format!("{}", c.abs());
    let s = if s.contains('.') { s } else { format!("{}.0", s) };
    if c < 0. {
        format!("(- {})", s)
    } else {
        s
    }
}

// ---------------------------------------------------------------------------------------
// solver processes
// ---------------------------------------------------------------------------------------

enum Raw {
    Sat(Vec<f64>),
    Unsat,
    Unknown,
}

struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Solver {
    fn start() -> Self {
        let mut child = Command::new("z3")
            .args(["-in", "-smt2", "pp.decimal=true", "pp.decimal_precision=20"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Solver { child, inp, out }
    }

    fn check(&mut self, prob: &str, vars: &[String], timeout_ms: u32) -> Raw {
        let text = format!(
            "(reset)\n(set-option :timeout {})\n{}(check-sat)\n(echo \"--\")\n",
            timeout_ms, prob
        );
        if self.inp.write_all(text.as_bytes()).is_err() {
            *self = Solver::start();
            return Raw::Unknown;
        }
        self.inp.flush().ok();
        let mut res = String::new();
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                *self = Solver::start();
                return Raw::Unknown;
            }
            let l = l.trim();
            if l == "--" {
                break;
            }
            if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
                res = l.to_string();
            } else if l.starts_with("(error") {
                if std::env::var("SYM_DEBUG").is_ok() {
                    eprintln!("z3: {}\n{}", l, prob);
                }
                res = "unknown".into();
            }
        }
        match res.as_str() {
            "unsat" => Raw::Unsat,
            "sat" => {
                if vars.is_empty() {
                    return Raw::Sat(vec![]);
                }
                let q = format!("(get-value ({}))\n(echo \"--\")\n", vars.join(" "));
                self.inp.write_all(q.as_bytes()).ok();
                self.inp.flush().ok();
                let mut buf = String::new();
                loop {
                    let mut l = String::new();
                    if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                        return Raw::Unknown;
                    }
                    if l.trim() == "--" {
                        break;
                    }
                    buf += &l;
                }
                Raw::Sat(parse_values(&buf, vars))
            }
            _ => Raw::Unknown,
        }
    }
}

fn cvc5(prob: &str, vars: &[String], timeout_ms: u32) -> Raw {
    let mut text = format!("(set-logic ALL)\n{}(check-sat)\n", prob);
    if !vars.is_empty() {
        text += &format!("(get-value ({}))\n", vars.join(" "));
    }
    let child = Command::new("cvc5")
        .args(["--lang=smt2", "--produce-models", &format!("--tlimit={}", timeout_ms), "-"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(_) => return Raw::Unknown,
    };
    child.stdin.take().unwrap().write_all(text.as_bytes()).ok();
    let o = match child.wait_with_output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
        Err(_) => return Raw::Unknown,
    };
    let first = o.lines().next().unwrap_or("");
    match first {
        "unsat" => Raw::Unsat,
        "sat" => {
            let rest: String = o.lines().skip(1).collect::<Vec<_>>().join("\n");
            Raw::Sat(parse_values(&rest, vars))
        }
        _ => Raw::Unknown,
    }
}

fn parse_values(s: &str, vars: &[String]) -> Vec<f64> {
    // ((a0 1.5) (a1 (- 2.0)) (a2 (/ 1.0 3.0)) (a3 1.41?))
    let toks: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    let mut map = HashMap::new();
    let mut i = 0;
    fn expr(t: &[String], i: &mut usize) -> f64 {
        if *i >= t.len() {
            return 0.;
        }
        if t[*i] == "(" {
            *i += 1;
            let op = t[*i].clone();
            *i += 1;
            let mut args = vec![];
            while *i < t.len() && t[*i] != ")" {
                args.push(expr(t, i));
            }
            *i += 1;
            match op.as_str() {
                "-" if args.len() == 1 => -args[0],
                "-" => args[0] - args[1],
                "/" => args[0] / args[1],
                "+" => args.iter().sum(),
                "*" => args.iter().product(),
                _ => args.first().cloned().unwrap_or(0.),
            }
        } else {
            let v = t[*i].trim_end_matches('?').parse().unwrap_or(0.);
            *i += 1;
            v
        }
    }
    while i + 1 < toks.len() {
        if toks[i] == "(" && vars.contains(&toks[i + 1]) {
            let n = toks[i + 1].clone();
            i += 2;
            let v = expr(&toks, &mut i);
            map.insert(n, v);
        } else {
            i += 1;
        }
    }
    vars.iter().map(|v| map.get(v).cloned().unwrap_or(0.)).collect()
}

// ---------------------------------------------------------------------------------------
// Sym operations
// ---------------------------------------------------------------------------------------

impl Sym {
    pub const MAX: Sym = lit(core::primitive::f64::MAX);

    pub fn is_concrete(self) -> bool {
        self.id == 0
    }
    pub fn concrete(self) -> Option<core::primitive::f64> {
        if self.id == 0 {
            Some(self.c)
        } else {
            None
        }
    }

    fn s_add(a: Sym, b: Sym, k: f64) -> Sym {
        if a.id == 0 && b.id == 0 {
            return lit(a.c + k * b.c);
        }
        if a.id == 0 && !a.c.is_finite() {
            return a;
        }
        if b.id == 0 && !b.c.is_finite() {
            return lit(k * b.c);
        }
        with(|ar| {
            let p = ar.add_poly(&ar.poly(a), &ar.poly(b), k);
            ar.mk(p)
        })
    }

    fn s_mul(a: Sym, b: Sym) -> Sym {
        if a.id == 0 && b.id == 0 {
            return lit(a.c * b.c);
        }
        for (x, y) in [(a, b), (b, a)] {
            if x.id == 0 && !x.c.is_finite() {
                if x.c.is_nan() {
                    return x;
                }
                // inf * symbolic
                if y == lit(0.) {
                    return lit(f64::NAN);
                }
                return if y > lit(0.) { x } else { lit(-x.c) };
            }
        }
        with(|ar| {
            let p = ar.mul_poly(&ar.poly(a), &ar.poly(b));
            ar.mk(p)
        })
    }

    fn s_div(a: Sym, b: Sym) -> Sym {
        if b.id == 0 {
            if a.id == 0 {
                return lit(a.c / b.c);
            }
            if b.c.is_infinite() {
                return lit(0.);
            }
            if b.c.is_nan() {
                return b;
            }
            if b.c == 0. {
                if a == lit(0.) {
                    return lit(f64::NAN);
                }
                let s = if b.c.is_sign_negative() { -1. } else { 1. };
                return if a > lit(0.) { lit(s * f64::INFINITY) } else { lit(-s * f64::INFINITY) };
            }
            return with(|ar| {
                let mut p = ar.poly(a);
                for t in p.t.iter_mut() {
                    t.1 /= b.c;
                }
                ar.mk(p)
            });
        }
        // symbolic divisor
        if b == lit(0.) {
            if a == lit(0.) {
                return lit(f64::NAN);
            }
            return if a > lit(0.) { lit(f64::INFINITY) } else { lit(f64::NEG_INFINITY) };
        }
        if a.id == 0 && !a.c.is_finite() {
            return if b > lit(0.) { a } else { lit(-a.c) };
        }
        with(|ar| {
            let pb = ar.poly(b);
            let pa = ar.poly(a);
            if pa.t.is_empty() {
                return lit(0.);
            }
            let lead = pb.t.last().unwrap().1;
            let pb1 = Poly {
                t: pb.t.iter().map(|(m, c)| (m.clone(), c / lead)).collect(),
            };
            // scalar multiple?
            if pa.t.len() == pb1.t.len() && pa.t.iter().zip(&pb1.t).all(|(x, y)| x.0 == y.0) {
                let k = pa.t.last().unwrap().1;
                if pa
                    .t
                    .iter()
                    .zip(&pb1.t)
                    .all(|(x, y)| (x.1 - k * y.1).abs() <= 1e-10 * x.1.abs().max((k * y.1).abs()))
                {
                    return lit(k / lead);
                }
            }
            let m = if pb1.t.len() == 1 {
                pb1.t[0].0.iter().map(|(a, e)| (*a, -*e)).collect::<Mono>()
            } else {
                let s = ar.mk(pb1.clone());
                let id = ar.canon(s);
                let at = ar.fun_atom(Op::PolyAtom, vec![id]);
                // exact division by a polynomial atom already in the denominator is not tried
                vec![(at, -1)]
            };
            let p = ar.mul_poly(&pa, &Poly { t: vec![(m, 1. / lead)] });
            ar.mk(p)
        })
    }

    fn fun1(self, op: Op) -> Sym {
        with(|ar| ar.fun(op, &[self]))
    }

    fn cmp_lit(a: Sym, b: Sym, rel: Rel) -> bool {
        if a.id == 0 && b.id == 0 {
            return match rel {
                Rel::Lt => a.c < b.c,
                Rel::Le => a.c <= b.c,
                Rel::Eq => a.c == b.c,
                Rel::Ne => a.c != b.c,
            };
        }
        // infinities and NaN against a (finite) symbolic value
        if a.id == 0 && !a.c.is_finite() {
            return match rel {
                Rel::Lt | Rel::Le => a.c == f64::NEG_INFINITY,
                Rel::Eq => false,
                Rel::Ne => true,
            };
        }
        if b.id == 0 && !b.c.is_finite() {
            return match rel {
                Rel::Lt | Rel::Le => b.c == f64::INFINITY,
                Rel::Eq => false,
                Rel::Ne => true,
            };
        }
        // idealised arithmetic: +-MAX bound every value
        if a.id == 0 && a.c.abs() > 1e30 {
            return match rel {
                Rel::Lt | Rel::Le => a.c < 0.,
                Rel::Eq => false,
                Rel::Ne => true,
            };
        }
        if b.id == 0 && b.c.abs() > 1e30 {
            return match rel {
                Rel::Lt | Rel::Le => b.c > 0.,
                Rel::Eq => false,
                Rel::Ne => true,
            };
        }
        let d = a - b;
        let d = with(|ar| ar.fold(d));
        if d.id == 0 {
            return match rel {
                Rel::Lt => d.c < 0.,
                Rel::Le => d.c <= 0.,
                Rel::Eq => d.c == 0.,
                Rel::Ne => d.c != 0.,
            };
        }
        // normalise the sign so that the same comparison is recognised later
        let r = with(|ar| ar.decide(Lit { p: d.id, rel, neg: false }));
        match r {
            Ok(b) => b,
            Err(e) => abort(e),
        }
    }

    pub fn abs(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.abs());
        }
        let (lo, hi) = with(|ar| ar.poly_iv[self.id as usize]);
        if lo >= 0. {
            return self;
        }
        if hi <= 0. {
            return -self;
        }
        // canonical sign
        let s = with(|ar| ar.polys[self.id as usize].t.last().unwrap().1);
        (if s < 0. { -self } else { self }).fun1(Op::Abs)
    }
    pub fn sqrt(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.sqrt());
        }
        if self < lit(0.) {
            return lit(f64::NAN);
        }
        // sqrt(k * m^2) = sqrt(k) * |m|
        let root = with(|ar| {
            let p = ar.poly(self);
            match &p.t[..] {
                [(m, c)] if *c > 0. && m.iter().all(|x| x.1 % 2 == 0) => {
                    let h: Mono = m.iter().map(|x| (x.0, x.1 / 2)).collect();
                    Some(ar.mk(Poly { t: vec![(h, c.sqrt())] }))
                }
                _ => None,
            }
        });
        if let Some(r) = root {
            return r.abs();
        }
        self.fun1(Op::Sqrt)
    }
    pub fn floor(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.floor());
        }
        let me = with(|ar| ar.fold(self));
        if me.id == 0 {
            return lit(me.c.floor());
        }
        // floor(p + k) = floor(p) + k for integer k
        let (kk, k, rest) = with(|ar| {
            let p = ar.poly(me);
            let mut k = 0.;
            let mut t = p.t.clone();
            if t[0].0.is_empty() {
                k = t[0].1.floor();
                t[0].1 -= k;
                if t[0].1 == 0. {
                    t.remove(0);
                }
            }
            // pull out integer multiples of floor atoms
            let mut pulled: Vec<(Mono, f64)> = vec![];
            t.retain(|(m, c)| {
                let is_floor = m.len() == 1
                    && m[0].1 == 1
                    && matches!(ar.atoms[m[0].0 as usize], Atom::Fun { op: Op::Floor, .. });
                if is_floor && c.fract() == 0. {
                    pulled.push((m.clone(), *c));
                    false
                } else {
                    true
                }
            });
            let kk = ar.mk(Poly { t: pulled });
            let rest = ar.mk(Poly { t });
            (kk, k, rest)
        });
        let fl = if rest.id == 0 { lit(rest.c.floor()) } else { rest.fun1(Op::Floor) };
        kk + lit(k) + fl
    }
    pub fn ceil(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.ceil());
        }
        -((-self).floor())
    }
    pub fn trunc(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.trunc());
        }
        if self >= lit(0.) {
            self.floor()
        } else {
            self.ceil()
        }
    }
    pub fn fract(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.fract());
        }
        self - self.trunc()
    }
    pub fn round(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.round());
        }
        if self >= lit(0.) {
            (self + lit(0.5)).floor()
        } else {
            (self - lit(0.5)).ceil()
        }
    }
    pub fn round_ties_even(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.round_ties_even());
        }
        self.round()
    }
    pub fn max(self, o: Sym) -> Sym {
        if self.id == 0 && o.id == 0 {
            return lit(self.c.max(o.c));
        }
        for (x, y) in [(self, o), (o, self)] {
            if x.id == 0 && (x.c.is_nan() || x.c < -1e30) {
                return y;
            }
            if x.id == 0 && x.c > 1e30 {
                return x;
            }
        }
        if self.id == o.id && self.id != 0 {
            return self;
        }
        let d = self - o;
        let (lo, hi) = iv(d);
        if lo >= 0. {
            return self;
        }
        if hi <= 0. {
            return o;
        }
        with(|ar| ar.fun(Op::Max, &[self, o]))
    }
    pub fn min(self, o: Sym) -> Sym {
        if self.id == 0 && o.id == 0 {
            return lit(self.c.min(o.c));
        }
        for (x, y) in [(self, o), (o, self)] {
            if x.id == 0 && (x.c.is_nan() || x.c > 1e30) {
                return y;
            }
            if x.id == 0 && x.c < -1e30 {
                return x;
            }
        }
        if self.id == o.id && self.id != 0 {
            return self;
        }
        let d = self - o;
        let (lo, hi) = iv(d);
        if hi <= 0. {
            return self;
        }
        if lo >= 0. {
            return o;
        }
        with(|ar| ar.fun(Op::Min, &[self, o]))
    }
    #[track_caller]
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        assert!(lo <= hi, "min > max, or either was NaN");
        self.max(lo).min(hi)
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    pub fn recip(self) -> Sym {
        lit(1.) / self
    }
    pub fn powi(self, n: i32) -> Sym {
        if self.id == 0 {
            return lit(self.c.powi(n));
        }
        if n < 0 {
            return lit(1.) / self.powi(-n);
        }
        let mut r = lit(1.);
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    pub fn powf(self, e: Sym) -> Sym {
        if self.id == 0 && e.id == 0 {
            return lit(self.c.powf(e.c));
        }
        if e.id == 0 && e.c.fract() == 0. && e.c.abs() <= 16. {
            return self.powi(e.c as i32);
        }
        if e.id == 0 && e.c == 0.5 {
            return self.sqrt();
        }
        if self.id == 0 && self.c == 1. {
            return lit(1.);
        }
        if e == lit(0.) {
            return lit(1.);
        }
        if self == lit(0.) {
            return if e > lit(0.) { lit(0.) } else { lit(f64::INFINITY) };
        }
        if self < lit(0.) {
            unsupported("powf of a negative symbolic base");
        }
        // base^e = exp(e * ln(base)) for constant bases keeps one canonical form
        if self.id == 0 {
            return (e * lit(self.c.ln())).exp();
        }
        with(|ar| ar.fun(Op::Pow, &[self, e]))
    }
    pub fn exp(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.exp());
        }
        self.fun1(Op::Exp)
    }
    pub fn exp2(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.exp2());
        }
        (self * lit(std::f64::consts::LN_2)).exp()
    }
    pub fn exp_m1(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.exp_m1());
        }
        self.exp() - lit(1.)
    }
    pub fn ln(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.ln());
        }
        if self <= lit(0.) {
            if self == lit(0.) {
                return lit(f64::NEG_INFINITY);
            }
            return lit(f64::NAN);
        }
        // ln(c * exp(p)) = ln(c) + p
        if let Some((c, p)) = with(|ar| ar.as_exp(self)) {
            return p + lit(c.ln());
        }
        self.fun1(Op::Ln)
    }
    pub fn log10(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.log10());
        }
        self.ln() / lit(std::f64::consts::LN_10)
    }
    pub fn log2(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.log2());
        }
        self.ln() / lit(std::f64::consts::LN_2)
    }
    pub fn log(self, b: Sym) -> Sym {
        self.ln() / b.ln()
    }
    pub fn sin(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.sin());
        }
        // sin(p + c): leading coefficient positive, constant in (-pi/2, pi/2]
        let pi = std::f64::consts::PI;
        let (arg, mut k) = {
            let s = with(|ar| ar.polys[self.id as usize].t.last().unwrap().1);
            if s < 0. { (-self, -1.) } else { (self, 1.) }
        };
        let c = with(|ar| {
            let p = &ar.polys[arg.id as usize];
            if p.t[0].0.is_empty() { p.t[0].1 } else { 0. }
        });
        let n = ((c - pi / 2. - 1e-9) / pi).ceil();
        if n as i64 % 2 != 0 {
            k = -k;
        }
        let mut shift = c - n * pi;
        if shift.abs() < 1e-12 {
            shift = 0.;
        }
        let arg = if n == 0. { arg } else { arg - lit(c) + lit(shift) };
        let f = arg.fun1(Op::Sin);
        if k < 0. { -f } else { f }
    }
    pub fn cos(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.cos());
        }
        (self + lit(std::f64::consts::FRAC_PI_2)).sin()
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn tan(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.tan());
        }
        self.fun1(Op::Tan)
    }
    pub fn atan(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.atan());
        }
        self.fun1(Op::Atan)
    }
    pub fn asin(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.asin());
        }
        self.fun1(Op::Asin)
    }
    pub fn acos(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.acos());
        }
        self.fun1(Op::Acos)
    }
    pub fn atan2(self, o: Sym) -> Sym {
        if self.id == 0 && o.id == 0 {
            return lit(self.c.atan2(o.c));
        }
        with(|ar| ar.fun(Op::Atan2, &[self, o]))
    }
    pub fn tanh(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.tanh());
        }
        self.fun1(Op::Tanh)
    }
    pub fn sinh(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.sinh());
        }
        self.fun1(Op::Sinh)
    }
    pub fn cosh(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.cosh());
        }
        self.fun1(Op::Cosh)
    }
    pub fn hypot(self, o: Sym) -> Sym {
        if self.id == 0 && o.id == 0 {
            return lit(self.c.hypot(o.c));
        }
        (self * self + o * o).sqrt()
    }
    pub fn signum(self) -> Sym {
        if self.id == 0 {
            return lit(self.c.signum());
        }
        if self >= lit(0.) {
            lit(1.)
        } else {
            lit(-1.)
        }
    }
    pub fn copysign(self, o: Sym) -> Sym {
        if o.is_sign_negative() {
            -self.abs()
        } else {
            self.abs()
        }
    }
    pub fn to_radians(self) -> Sym {
        self * lit(std::f64::consts::PI / 180.)
    }
    pub fn to_degrees(self) -> Sym {
        self * lit(180. / std::f64::consts::PI)
    }
    pub fn is_nan(self) -> bool {
        self.id == 0 && self.c.is_nan()
    }
    pub fn is_finite(self) -> bool {
        self.id != 0 || self.c.is_finite()
    }
    pub fn is_infinite(self) -> bool {
        self.id == 0 && self.c.is_infinite()
    }
    pub fn is_normal(self) -> bool {
        if self.id == 0 {
            return self.c.is_normal();
        }
        // used to flush subnormals only: symbolic values are taken as normal numbers unless the
        // interval says they are zero (assumption `normal`)
        iv(self) != (0., 0.)
    }
    pub fn is_subnormal(self) -> bool {
        self.id == 0 && self.c.is_subnormal()
    }
    pub fn is_sign_negative(self) -> bool {
        if self.id == 0 {
            return self.c.is_sign_negative();
        }
        self < lit(0.)
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn rem_euclid(self, m: Sym) -> Sym {
        if self.id == 0 && m.id == 0 {
            return lit(self.c.rem_euclid(m.c));
        }
        let q = self / m;
        let q = if m > lit(0.) { q.floor() } else { q.ceil() };
        self - m * q
    }
    pub fn total_cmp(&self, o: &Sym) -> Ordering {
        if self.id == 0 && o.id == 0 {
            return self.c.total_cmp(&o.c);
        }
        self.partial_cmp(o).unwrap()
    }
    pub fn to_bits<B: Bits>(self) -> B {
        let i = with(|ar| {
            ar.bits.push(self);
            ar.bits.len() - 1
        });
        B::mk(i as u64)
    }
    pub fn from_bits<B: Bits>(b: B) -> Sym {
        let i = b.get();
        with(|ar| ar.bits.get(i as usize).cloned().unwrap_or(lit(0.)))
    }
}

pub trait Bits: Copy {
    fn mk(i: u64) -> Self;
    fn get(self) -> u64;
}
impl Bits for u32 {
    fn mk(i: u64) -> u32 {
        i as u32
    }
    fn get(self) -> u64 {
        self as u64
    }
}
impl Bits for u64 {
    fn mk(i: u64) -> u64 {
        i
    }
    fn get(self) -> u64 {
        self
    }
}

fn iv(s: Sym) -> (f64, f64) {
    if s.id == 0 {
        (s.c, s.c)
    } else {
        with(|ar| ar.poly_iv[s.id as usize])
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $e:expr) => {
        impl std::ops::$tr<Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $e(self, o)
            }
        }
        impl<'a> std::ops::$tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $e(self, *o)
            }
        }
        impl<'a> std::ops::$tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $e(*self, o)
            }
        }
        impl<'a, 'b> std::ops::$tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: &'b Sym) -> Sym {
                $e(*self, *o)
            }
        }
        impl std::ops::$tra<Sym> for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = $e(*self, o)
            }
        }
        impl<'a> std::ops::$tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = $e(*self, *o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |a, b| Sym::s_add(a, b, 1.));
binop!(Sub, sub, SubAssign, sub_assign, |a, b| Sym::s_add(a, b, -1.));
binop!(Mul, mul, MulAssign, mul_assign, Sym::s_mul);
binop!(Div, div, DivAssign, div_assign, Sym::s_div);
binop!(Rem, rem, RemAssign, rem_assign, |a: Sym, b: Sym| {
    if a.id == 0 && b.id == 0 {
        return lit(a.c % b.c);
    }
    let q = (a / b).trunc();
    a - b * q
});

impl std::ops::Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        if self.id == 0 {
            return lit(-self.c);
        }
        Sym::s_mul(lit(-1.), self)
    }
}
impl<'a> std::ops::Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -*self
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(lit(0.), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(lit(0.), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(lit(1.), |a, b| a * b)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        lit(0.)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        Sym::cmp_lit(*self, *o, Rel::Eq)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        if *self < *o {
            Some(Ordering::Less)
        } else if *self == *o {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        Sym::cmp_lit(*self, *o, Rel::Lt)
    }
    fn le(&self, o: &Sym) -> bool {
        Sym::cmp_lit(*self, *o, Rel::Le)
    }
    fn gt(&self, o: &Sym) -> bool {
        Sym::cmp_lit(*o, *self, Rel::Lt)
    }
    fn ge(&self, o: &Sym) -> bool {
        Sym::cmp_lit(*o, *self, Rel::Le)
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.id == 0 {
            write!(f, "{:?}", self.c)
        } else {
            write!(f, "{}", show(*self))
        }
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

pub fn show(s: Sym) -> String {
    if s.id == 0 {
        return format!("{:?}", s.c);
    }
    A.with(|a| match a.try_borrow() {
        Ok(ar) => {
            let t = show_poly(&ar, s.id, 0);
            if t.len() > 1500 {
                format!("{}...", &t[..1500])
            } else {
                t
            }
        }
        Err(_) => "<sym>".into(),
    })
}

fn show_poly(ar: &Arena, id: u32, depth: usize) -> String {
    if depth > 6 || id as usize >= ar.polys.len() {
        return "..".into();
    }
    let p = &ar.polys[id as usize];
    let v: Vec<String> = p
        .t
        .iter()
        .take(12)
        .map(|(m, c)| {
            let mut s = format!("{}", c);
            for (a, e) in m {
                let n = match &ar.atoms[*a as usize] {
                    Atom::Var { name } => name.clone(),
                    Atom::Fun { op, args } => format!(
                        "{:?}({})",
                        op,
                        args.iter()
                            .map(|i| show_poly(ar, *i, depth + 1))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                };
                s += &format!("*{}", n);
                if *e != 1 {
                    s += &format!("^{}", e);
                }
            }
            s
        })
        .collect();
    let mut s = v.join(" + ");
    if p.t.len() > 12 {
        s += &format!(" + .. ({} terms)", p.t.len());
    }
    s
}

macro_rules! from_int {
    ($($t:ty),*) => { $(
        impl From<$t> for Sym { fn from(x: $t) -> Sym { lit(x as core::primitive::f64) } }
    )* };
}
from_int!(u8, u16, u32, i8, i16, i32, bool2);
#[allow(non_camel_case_types)]
type bool2 = i64;
impl From<core::primitive::f64> for Sym {
    fn from(x: core::primitive::f64) -> Sym {
        lit(x)
    }
}

/// `expr as T` of the verified code
pub trait CastTo<T> {
    fn cast_to(self) -> T;
}
macro_rules! cast_int {
    ($($a:ty => $($b:ty),*);*) => { $($(
        impl CastTo<$b> for $a { #[inline] fn cast_to(self) -> $b { self as $b } }
    )*)* };
}
cast_int!(
    u8 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize,char;
    u16 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    u32 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    u64 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    u128 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    usize => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    i8 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    i16 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    i32 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    i64 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    i128 => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    isize => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize;
    bool => u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,isize
);
macro_rules! cast_sym {
    ($($a:ty),*) => { $(
        impl CastTo<Sym> for $a { #[inline] fn cast_to(self) -> Sym { lit(self as core::primitive::f64) } }
    )* };
}
cast_sym!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl CastTo<Sym> for Sym {
    #[inline]
    fn cast_to(self) -> Sym {
        self
    }
}
macro_rules! cast_from_sym {
    ($($b:ty),*) => { $(
        impl CastTo<$b> for Sym {
            fn cast_to(self) -> $b {
                if self.id == 0 { return self.c as $b; }
                let v = concretise(self);
                // saturating, like `as`
                (v as core::primitive::f64) as $b
            }
        }
    )* };
}
cast_from_sym!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl<T> CastTo<usize> for *const T {
    fn cast_to(self) -> usize {
        self as usize
    }
}
/// value handed to the standard library (durations): must not depend on a quantified input
pub fn native64(s: Sym) -> core::primitive::f64 {
    match s.concrete() {
        Some(c) => c,
        None => unsupported("symbolic duration"),
    }
}
pub fn native32(s: Sym) -> core::primitive::f32 {
    native64(s) as core::primitive::f32
}
impl Sym {
    pub fn from_native(x: impl Into<core::primitive::f64>) -> Sym {
        lit(x.into())
    }
}

/// truncate to an integer: one path per feasible value
fn concretise(s: Sym) -> i64 {
    let s = with(|ar| ar.fold(s));
    if s.id == 0 {
        return s.c as i64;
    }
    if s < lit(0.) {
        let n = -concretise_nonneg(-s);
        return n;
    }
    concretise_nonneg(s)
}

fn concretise_nonneg(s: Sym) -> i64 {
    loop {
        enum R {
            Val(i64, bool),
            Abort(Abort),
        }
        // lo <= s < lo + 1
        let (l, h) = with(|ar| ar.refine(s.id, 4));
        if l >= 0. && l.floor() == h.floor() {
            return l as i64;
        }
        let r = with(|ar| {
            if ar.pos < ar.dec.len() {
                let d = ar.dec[ar.pos].clone();
                ar.pos += 1;
                return match d {
                    Dec::Int(v, b) => R::Val(v, b),
                    _ => R::Abort(Abort::Unsupported("replay divergence (int)".into())),
                };
            }
            // a feasible value
            let pc = ar.pc.clone();
            let ls = ar.slice(&pc, &[s.id]);
            let (prob, vars) = ar.problem(&ls, &[], &[s.id]);
            let v = match ar.query(&prob, &vars, 3000, true) {
                Answer::Sat(m) => {
                    let mut full: HashMap<u32, f64> = ar
                        .atoms
                        .iter()
                        .enumerate()
                        .filter(|(_, a)| matches!(a, Atom::Var { .. }))
                        .map(|(i, _)| (i as u32, ar.default_model_value(i as u32)))
                        .collect();
                    for (k, v) in m {
                        full.insert(k, v);
                    }
                    match ar.eval_poly(s.id, &full, &mut HashMap::new()) {
                        Some(x) if x.is_finite() => (x + 1e-9).floor().max(0.) as i64,
                        _ => return R::Abort(Abort::Unsupported("concretise: no value".into())),
                    }
                }
                Answer::Unsat => return R::Abort(Abort::Infeasible),
                Answer::Unknown => {
                    return R::Abort(Abort::Unsupported("concretise: solver unknown".into()))
                }
            };
            let e = ar.emit_poly(s.id);
            // the model value is rounded: take the neighbour if this integer is not feasible
            let inside = vec![format!("(and (>= {} {}) (< {} {}))", e, num(v as f64), e, num(v as f64 + 1.))];
            let (prob, vars) = ar.problem(&ls, &inside, &[s.id]);
            let v = if v > 0 && matches!(ar.query(&prob, &vars, 3000, true), Answer::Unsat) { v - 1 } else { v };
            let extra = vec![format!("(or (< {} {}) (>= {} {}))", e, num(v as f64), e, num(v as f64 + 1.))];
            let (prob, vars) = ar.problem(&ls, &extra, &[s.id]);
            if !matches!(ar.query(&prob, &vars, 3000, true), Answer::Unsat) {
                let mut alt = ar.dec.clone();
                alt.push(Dec::Int(v, false));
                ar.spawned.push(alt);
            }
            ar.dec.push(Dec::Int(v, true));
            ar.pos += 1;
            R::Val(v, true)
        });
        let (v, taken) = match r {
            R::Val(v, t) => (v, t),
            R::Abort(a) => abort(a),
        };
        let lo = s - lit(v as f64);
        let hi = s - lit(v as f64 + 1.);
        let ok = with(|ar| {
            ar.model = None;
            if taken {
                if lo.id != 0 {
                    ar.push_pc(Lit { p: lo.id, rel: Rel::Lt, neg: true });
                    ar.push_pc(Lit { p: hi.id, rel: Rel::Lt, neg: false });
                }
                true
            } else {
                true
            }
        });
        let _ = ok;
        if taken {
            // may be infeasible after rounding of the model value
            if !with(|ar| ar.ensure_model()) {
                abort(Abort::Infeasible)
            }
            return v;
        }
        // not this value: below or above, an ordinary decision
        let below = s < lit(v as f64);
        if !below {
            if s < lit(v as f64 + 1.) {
                abort(Abort::Infeasible)
            }
        }
    }
}

// ---------------------------------------------------------------------------------------
// specification interface
// ---------------------------------------------------------------------------------------

/// a universally quantified real input with `lo <= x <= hi`
pub fn any(name: &str, lo: impl Into<Sym>, hi: impl Into<Sym>) -> Sym {
    let (lo, hi) = (lo.into(), hi.into());
    assert!(lo.id == 0 && hi.id == 0);
    with(|ar| {
        let mut n = name.to_string();
        let mut k = 1;
        while ar.var_map.contains_key(&n) {
            k += 1;
            n = format!("{}#{}", name, k);
        }
        let a = ar.atoms.len() as u32;
        ar.atoms.push(Atom::Var { name: n.clone() });
        ar.atom_iv.push((lo.c, hi.c));
        ar.var_map.insert(n, a);
        ar.mk(Poly { t: vec![(vec![(a, 1)], 1.)] })
    })
}

/// a universally quantified integer in lo..=hi: one path per value
pub fn pick(name: &str, lo: i64, hi: i64) -> i64 {
    let v = with(|ar| {
        let v = if ar.pos < ar.dec.len() {
            match ar.dec[ar.pos].clone() {
                Dec::Pick(v) => v,
                _ => lo,
            }
        } else {
            for k in (lo + 1..=hi).rev() {
                let mut alt = ar.dec.clone();
                alt.push(Dec::Pick(k));
                ar.spawned.push(alt);
            }
            ar.dec.push(Dec::Pick(lo));
            lo
        };
        ar.pos += 1;
        let mut n = format!("pick:{}", name);
        let mut k = 1;
        while ar.labels.iter().any(|l| l.0 == n) {
            k += 1;
            n = format!("pick:{}#{}", name, k);
        }
        ar.labels.push((n, v.to_string()));
        v
    });
    v
}

pub fn pick_bool(name: &str) -> bool {
    pick(name, 0, 1) == 1
}

/// is this value the constant 0 (never forks)
pub fn is_zero(x: impl Into<Sym>) -> bool {
    let x = x.into();
    x.id == 0 && x.c == 0.
}

/// precondition
pub fn assume(b: bool) {
    if !b {
        abort(Abort::Infeasible)
    }
}

fn record(ob: Ob) {
    with(|ar| {
        // one counterexample per obligation and path is enough
        if matches!(ob.verdict, Verdict::Failed | Verdict::Undecided)
            && ar.results.iter().any(|o| o.verdict == ob.verdict && o.name == ob.name)
        {
            return;
        }
        ar.results.push(ob)
    });
}

fn path_model() -> Vec<(String, core::primitive::f64)> {
    with(|ar| {
        ar.ensure_model();
        let m = ar.model.clone().unwrap_or_default();
        ar.full_model(&m)
    })
}

/// postcondition that was decided along this path
pub fn check(name: &str, b: bool) {
    if b {
        record(Ob { name: name.into(), verdict: Verdict::Eval, detail: String::new(), model: vec![] });
    } else {
        let m = path_model();
        record(Ob { name: name.into(), verdict: Verdict::Failed, detail: "evaluates to false".into(), model: m });
    }
}

/// case split on min / max / abs: the value with those atoms resolved on this path
fn split(s: Sym) -> Sym {
    if s.id == 0 {
        return s;
    }
    // (all, inside another function)
    let (flat, nested) = with(|ar| {
        let mut seen = vec![];
        ar.cases(s.id, false, &mut seen, &mut HashMap::new());
        let n = seen.iter().filter(|x| x.1 && !ar.split_memo.contains_key(&x.0)).count();
        let f = seen.iter().filter(|x| !ar.split_memo.contains_key(&x.0)).count();
        if seen.is_empty() { (0, -1) } else { (f as i64, n as i64) }
    });
    let done = with(|ar| ar.splits) as i64;
    if nested < 0 || (flat > 0 && done + flat > 12 && !(nested > 0 && done + nested <= 40)) {
        return s;
    }
    rebuild(s)
}

fn rebuild(s: Sym) -> Sym {
    if s.id == 0 {
        return s;
    }
    let p = with(|ar| ar.poly(s));
    let touched = with(|ar| {
        let mut seen = vec![];
        ar.cases(s.id, false, &mut seen, &mut HashMap::new());
        !seen.is_empty()
    });
    if !touched {
        return s;
    }
    let mut out = lit(0.);
    for (m, c) in p.t {
        let mut v = lit(c);
        for (a, e) in m {
            let x = rebuild_atom(a);
            for _ in 0..e.abs() {
                v = if e > 0 { v * x } else { v / x };
            }
        }
        out = out + v;
    }
    out
}

fn rebuild_atom(a: u32) -> Sym {
    if let Some(x) = with(|ar| ar.split_memo.get(&a).cloned()) {
        return x;
    }
    let at = with(|ar| ar.atoms[a as usize].clone());
    let me = with(|ar| ar.mk(Poly { t: vec![(vec![(a, 1)], 1.)] }));
    let Atom::Fun { op, args } = at else { return me };
    let old: Vec<Sym> = args
        .iter()
        .map(|i| with(|ar| { let p = ar.polys[*i as usize].clone(); ar.mk(p) }))
        .collect();
    let new: Vec<Sym> = old.iter().map(|x| rebuild(*x)).collect();
    let same = old.iter().zip(&new).all(|(x, y)| x.id == y.id && x.c == y.c);
    let r = match op {
        Op::Max => {
            with(|ar| ar.splits += 1);
            if new[0] >= new[1] { new[0] } else { new[1] }
        }
        Op::Min => {
            with(|ar| ar.splits += 1);
            if new[0] <= new[1] { new[0] } else { new[1] }
        }
        Op::Abs => {
            with(|ar| ar.splits += 1);
            if new[0] >= lit(0.) { new[0] } else { -new[0] }
        }
        _ if same => me,
        Op::PolyAtom => new[0],
        Op::Floor => new[0].floor(),
        Op::Sqrt => new[0].sqrt(),
        Op::Sin => new[0].sin(),
        Op::Cos => new[0].cos(),
        Op::Tan => new[0].tan(),
        Op::Atan => new[0].atan(),
        Op::Asin => new[0].asin(),
        Op::Acos => new[0].acos(),
        Op::Tanh => new[0].tanh(),
        Op::Sinh => new[0].sinh(),
        Op::Cosh => new[0].cosh(),
        Op::Exp => new[0].exp(),
        Op::Ln => new[0].ln(),
        Op::Pow => new[0].powf(new[1]),
        Op::Atan2 => new[0].atan2(new[1]),
    };
    with(|ar| ar.split_memo.insert(a, r));
    r
}

/// postcondition `a == b` (reals; tolerance 1e-6 absolute where the solver is needed)
pub fn check_eq(name: &str, a: impl Into<Sym>, b: impl Into<Sym>) {
    check_close(name, a, b, 1e-6)
}

/// like check_eq; `native_tol` only matters in native mode (machine floats)
pub fn check_close(name: &str, a: impl Into<Sym>, b: impl Into<Sym>, _native_tol: impl Into<Sym>) {
    let (a, b) = (a.into(), b.into());
    if a.id == 0 && b.id == 0 {
        let ok = a.c == b.c
            || (a.c.is_nan() && b.c.is_nan())
            || (a.c - b.c).abs() <= 1e-7 * (1. + a.c.abs().max(b.c.abs()));
        if ok {
            record(Ob { name: name.into(), verdict: Verdict::Eval, detail: String::new(), model: vec![] });
        } else {
            let m = path_model();
            record(Ob { name: name.into(), verdict: Verdict::Failed, detail: format!("{:?} expected {:?}", a.c, b.c), model: m });
        }
        return;
    }
    let fin = |s: Sym| s.id != 0 || s.c.is_finite();
    if !fin(a) || !fin(b) {
        let m = path_model();
        record(Ob { name: name.into(), verdict: Verdict::Failed, detail: format!("{} expected {}", show(a), show(b)), model: m });
        return;
    }
    let d = a - b;
    let small = with(|ar| {
        let p = ar.poly(d);
        let pa = ar.poly(a);
        let mx = pa.t.iter().map(|t| t.1.abs()).fold(1., core::primitive::f64::max);
        p.t.iter().all(|(_, c)| c.abs() <= 1e-9 * mx)
    });
    if small {
        record(Ob { name: name.into(), verdict: Verdict::Normal, detail: String::new(), model: vec![] });
        return;
    }
    let d = with(|ar| ar.fold(d));
    let d = split(d);
    let (lo, hi) = iv(d);
    let zero = with(|ar| {
        let p = ar.poly(d);
        let mx = ar.poly(a).t.iter().map(|t| t.1.abs()).fold(1., core::primitive::f64::max);
        p.t.iter().all(|(_, c)| c.abs() <= 1e-9 * mx)
    });
    if zero || lo >= -1e-6 && hi <= 1e-6 {
        record(Ob { name: name.into(), verdict: Verdict::Normal, detail: String::new(), model: vec![] });
        return;
    }
    if d.id == 0 {
        let m = path_model();
        record(Ob { name: name.into(), verdict: Verdict::Failed, detail: format!("{} expected {}", show(a), show(b)), model: m });
        return;
    }
    let r = with(|ar| {
        let pc = ar.pc.clone();
        let ls = ar.slice(&pc, &[d.id]);
        let e = ar.emit_poly(d.id);
        let extra = vec![format!("(or (> {} 0.000001) (< {} (- 0.000001)))", e, e)];
        let (prob, vars) = ar.problem(&ls, &extra, &[d.id]);
        ar.query(&prob, &vars, 15000, true)
    });
    finish(name, r, || format!("{} expected {}", show(a), show(b)), d, true);
}

/// postcondition |a - b| <= eps (eps a constant)
pub fn check_within(name: &str, a: impl Into<Sym>, b: impl Into<Sym>, eps: impl Into<Sym>) {
    let (a, b, eps) = (a.into(), b.into(), eps.into().c);
    let fin = |s: Sym| s.id != 0 || s.c.is_finite();
    if !fin(a) || !fin(b) {
        return check_close(name, a, b, lit(0.));
    }
    let d = split(a - b);
    let (lo, hi) = iv(d);
    if lo >= -eps && hi <= eps {
        record(Ob { name: name.into(), verdict: Verdict::Normal, detail: String::new(), model: vec![] });
        return;
    }
    if d.id == 0 {
        let m = path_model();
        record(Ob { name: name.into(), verdict: Verdict::Failed, detail: format!("{:?} expected {:?} +- {:?}", a, b, eps), model: m });
        return;
    }
    let r = with(|ar| {
        let pc = ar.pc.clone();
        let ls = ar.slice(&pc, &[d.id]);
        let e = ar.emit_poly(d.id);
        let t = format!("{:.12}", eps);
        let extra = vec![format!("(or (> {} {}) (< {} (- {})))", e, t, e, t)];
        let (prob, vars) = ar.problem(&ls, &extra, &[d.id]);
        ar.query(&prob, &vars, 15000, true)
    });
    finish(name, r, || format!("{} expected {} +- {}", show(a), show(b), eps), d, true);
}

fn finish(name: &str, r: Answer, detail: impl Fn() -> String, d: Sym, eq: bool) {
    let ob = match r {
        Answer::Unsat => Ob { name: name.into(), verdict: Verdict::Smt, detail: String::new(), model: vec![] },
        Answer::Sat(m) => with_model(name, detail(), m),
        Answer::Unknown => {
            // look for a concrete witness of the negation before giving up
            if let Some(m) = sample_witness(d, eq) {
                with_model(name, detail(), m)
            } else {
                Ob { name: name.into(), verdict: Verdict::Undecided, detail: detail(), model: path_model() }
            }
        }
    };
    record(ob);
}

fn with_model(name: &str, detail: String, m: HashMap<u32, core::primitive::f64>) -> Ob {
    let m = with(|ar| {
        ar.ensure_model();
        // keep the rest of the path condition satisfied where possible
        let pc = ar.pc.clone();
        let _ = pc;
        ar.full_model(&m)
    });
    Ob { name: name.into(), verdict: Verdict::Failed, detail, model: m }
}

fn sample_witness(d: Sym, eq: bool) -> Option<HashMap<u32, core::primitive::f64>> {
    with(|ar| {
        let vars: Vec<u32> = ar
            .atoms
            .iter()
            .enumerate()
            .filter(|(_, a)| matches!(a, Atom::Var { .. }))
            .map(|(i, _)| i as u32)
            .collect();
        let mut st: u64 = 0x9E3779B97F4A7C15;
        for _ in 0..3000 {
            let mut m = HashMap::new();
            for v in &vars {
                st ^= st << 13;
                st ^= st >> 7;
                st ^= st << 17;
                let u = (st >> 11) as core::primitive::f64 / (1u64 << 53) as core::primitive::f64;
                let (lo, hi) = ar.atom_iv[*v as usize];
                let (lo, hi) = (lo.max(-10.), hi.min(10.).max(lo.max(-10.)));
                m.insert(*v, lo + (hi - lo) * u);
            }
            let mut memo = HashMap::new();
            let mut ok = true;
            for l in &ar.pc {
                match ar.eval_poly(l.p, &m, &mut memo) {
                    Some(x) if x.is_finite() && (l.rel.hold(x) != l.neg) => {}
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            if let Some(x) = ar.eval_poly(d.id, &m, &mut memo) {
                if (eq && x.abs() > 1e-5) || (!eq && x > 1e-5) || x.is_nan() {
                    return Some(m);
                }
            }
        }
        None
    })
}

/// postcondition a <= b + 1e-6
pub fn check_le(name: &str, a: impl Into<Sym>, b: impl Into<Sym>) {
    let (a, b) = (a.into(), b.into());
    if a.id == 0 && b.id == 0 {
        return check(name, a.c <= b.c + 1e-6);
    }
    if (a.id == 0 && !a.c.is_finite()) || (b.id == 0 && !b.c.is_finite()) {
        return check(name, a <= b);
    }
    let d = split(a - b);
    if d.id == 0 {
        return check(name, d.c <= 1e-6);
    }
    let (_, hi) = iv(d);
    if hi <= 1e-6 {
        record(Ob { name: name.into(), verdict: Verdict::Normal, detail: String::new(), model: vec![] });
        return;
    }
    let r = with(|ar| {
        let pc = ar.pc.clone();
        let ls = ar.slice(&pc, &[d.id]);
        let e = ar.emit_poly(d.id);
        let extra = vec![format!("(> {} 0.000001)", e)];
        let (prob, vars) = ar.problem(&ls, &extra, &[d.id]);
        ar.query(&prob, &vars, 15000, true)
    });
    finish(name, r, || format!("{} expected <= {}", show(a), show(b)), d, false);
}

/// run a piece of real code that may panic; Err(message) if it does
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    with(|ar| ar.catch_depth += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    with(|ar| ar.catch_depth -= 1);
    if with(|ar| ar.dead.is_some()) {
        std::panic::panic_any(EngineAbort)
    }
    match r {
        Ok(r) => Ok(r),
        Err(e) => Err(payload(e)),
    }
}

/// run code that is expected to panic internally (and to contain the panic itself)
pub fn expect_panics<R>(f: impl FnOnce() -> R) -> R {
    with(|ar| ar.catch_depth += 1);
    let r = f();
    with(|ar| ar.catch_depth -= 1);
    r
}

fn msg_of(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn label(name: &str, v: impl fmt::Debug) {
    with(|ar| ar.labels.push((name.to_string(), format!("{:?}", v))));
}

pub const NATIVE: bool = false;

// ---------------------------------------------------------------------------------------
// driver
// ---------------------------------------------------------------------------------------

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub contract: String,
    pub target: String,
    pub paths: u64,
    pub infeasible: u64,
    /// paths whose condition was confirmed satisfiable at the end (vacuity guard)
    pub confirmed: u64,
    pub unsupported: Vec<String>,
    /// obligation name -> (normaliser, smt, evaluated)
    pub obligations: std::collections::BTreeMap<String, (u64, u64, u64)>,
    pub failed: Vec<(String, String, Vec<(String, core::primitive::f64)>, Vec<(String, String)>)>,
    pub undecided: Vec<(String, String)>,
    pub smt_queries: u64,
    pub smt_ms: core::primitive::f64,
    pub cvc5_queries: u64,
    pub unknown_branches: u64,
    pub truncated: bool,
    pub wall_s: core::primitive::f64,
}

fn run_path(c: &crate::Contract, prefix: Vec<Dec>) -> (bool, Vec<Ob>, Vec<Vec<Dec>>, Option<Abort>, Vec<(String, String)>) {
    with(|ar| {
        ar.reset_path();
        ar.model = if prefix.is_empty() { Some(HashMap::new()) } else { None };
        ar.dec = prefix;
    });
    let r = std::panic::catch_unwind(c.body);
    if let Err(e) = r {
        let dead = with(|ar| ar.dead.clone());
        if dead.is_none() {
            let msg = payload(e);
            let loc = with(|ar| ar.last_panic.clone()).unwrap_or_default();
            let m = path_model();
            record(Ob {
                name: "no-panic".into(),
                verdict: Verdict::Failed,
                detail: format!("{} ({})", msg, loc),
                model: m,
            });
        }
    } else if let Some(d) = with(|ar| ar.stray.clone()) {
        // a panic that the code under test swallowed (a processor panicking on the render thread)
        let m = path_model();
        record(Ob { name: "no-panic".into(), verdict: Verdict::Failed, detail: format!("swallowed panic: {}", d), model: m });
    } else {
        record(Ob { name: "no-panic".into(), verdict: Verdict::Eval, detail: String::new(), model: vec![] });
    }
    let sat = with(|ar| ar.dead.is_none() && ar.ensure_model());
    with(|ar| {
        (
            sat,
            std::mem::take(&mut ar.results),
            std::mem::take(&mut ar.spawned),
            ar.dead.clone(),
            ar.labels.clone(),
        )
    })
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        A.with(|a| {
            if let Ok(mut ar) = a.try_borrow_mut() {
                ar.last_panic = Some(loc.clone());
                if ar.catch_depth == 0 && ar.dead.is_none() && info.payload().downcast_ref::<EngineAbort>().is_none() && ar.stray.is_none() {
                    ar.stray = Some(format!("{} at {}", msg_of(info.payload()), loc));
                }
            }
        });
        if std::env::var("SYM_DEBUG").is_ok() && info.payload().downcast_ref::<EngineAbort>().is_none() {
            eprintln!("panic: {:?} at {}", info.payload().downcast_ref::<String>(), loc);
        }
    }));
}

pub fn explore(c: crate::Contract, threads: usize, max_paths: u64, budget_s: core::primitive::f64) -> Report {
    use std::sync::{Arc, Condvar, Mutex};
    let start = std::time::Instant::now();
    struct Shared {
        queue: Vec<Vec<Dec>>,
        active: usize,
        rep: Report,
    }
    let sh = Arc::new((
        Mutex::new(Shared {
            queue: vec![vec![]],
            active: 0,
            rep: Report { contract: c.name.into(), target: c.target.into(), ..Default::default() },
        }),
        Condvar::new(),
    ));
    let mut hs = vec![];
    for _ in 0..threads {
        let sh = sh.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    loop {
                        let prefix = {
                            let mut g = sh.0.lock().unwrap();
                            loop {
                                if g.rep.paths >= max_paths || start.elapsed().as_secs_f64() > budget_s {
                                    if !g.queue.is_empty() {
                                        g.rep.truncated = true;
                                        g.queue.clear();
                                    }
                                }
                                if g.rep.failed.len() > 40 {
                                    // enough evidence
                                    g.queue.clear();
                                }
                                if let Some(p) = g.queue.pop() {
                                    g.active += 1;
                                    break Some(p);
                                }
                                if g.active == 0 {
                                    break None;
                                }
                                g = sh.1.wait(g).unwrap();
                            }
                        };
                        let Some(prefix) = prefix else {
                            sh.1.notify_all();
                            break;
                        };
                        let (sat, obs, spawned, dead, labels) = run_path(&c, prefix);
                        let mut g = sh.0.lock().unwrap();
                        g.active -= 1;
                        g.queue.extend(spawned);
                        g.rep.paths += 1;
                        g.rep.confirmed += sat as u64;
                        let mut counted = true;
                        match dead {
                            Some(Abort::Infeasible) => {
                                g.rep.infeasible += 1;
                                if std::env::var("VC_INF").is_ok() && g.rep.infeasible % 997 == 5 {
                                    eprintln!("infeasible: {:?} {:?}", labels, with(|ar| ar.dec.clone()));
                                }
                                counted = false;
                            }
                            Some(Abort::Unsupported(s)) => {
                                if g.rep.unsupported.len() < 20 {
                                    g.rep.unsupported.push(format!("{} [{:?}]", s, labels));
                                }
                                counted = false;
                            }
                            None => {}
                        }
                        for o in obs {
                            match o.verdict {
                                // obligations already established on a path that later turned out
                                // infeasible are not counted
                                Verdict::Normal | Verdict::Smt | Verdict::Eval => {
                                    if counted {
                                        let e = g.rep.obligations.entry(o.name).or_insert((0, 0, 0));
                                        match o.verdict {
                                            Verdict::Normal => e.0 += 1,
                                            Verdict::Smt => e.1 += 1,
                                            _ => e.2 += 1,
                                        }
                                    }
                                }
                                Verdict::Failed => {
                                    if counted && g.rep.failed.len() < 60 {
                                        g.rep.failed.push((o.name, o.detail, o.model, labels.clone()));
                                    }
                                }
                                Verdict::Undecided => {
                                    if counted && g.rep.undecided.len() < 60 {
                                        g.rep.undecided.push((o.name, o.detail));
                                    }
                                }
                            }
                        }
                        drop(g);
                        sh.1.notify_all();
                    }
                    let (q, ms, cv, ub) =
                        with(|ar| (ar.smt_queries, ar.smt_ms, ar.cvc_used, ar.unknown_branches));
                    with(|ar| ar.solver = None);
                    let mut g = sh.0.lock().unwrap();
                    g.rep.smt_queries += q;
                    g.rep.smt_ms += ms;
                    g.rep.cvc5_queries += cv;
                    g.rep.unknown_branches += ub;
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let mut r = sh.0.lock().unwrap().rep.clone();
    r.wall_s = start.elapsed().as_secs_f64();
    r
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

impl Report {
    pub fn json(&self) -> String {
        let obs: Vec<String> = self
            .obligations
            .iter()
            .map(|(k, v)| format!("\"{}\":[{},{},{}]", esc(k), v.0, v.1, v.2))
            .collect();
        let failed: Vec<String> = self
            .failed
            .iter()
            .map(|(n, d, m, l)| {
                format!(
                    "{{\"obligation\":\"{}\",\"detail\":\"{}\",\"model\":{{{}}},\"labels\":{{{}}}}}",
                    esc(n),
                    esc(d),
                    m.iter()
                        .map(|(k, v)| format!("\"{}\":{}", esc(k), if v.is_finite() { format!("{:?}", v) } else { "null".into() }))
                        .collect::<Vec<_>>()
                        .join(","),
                    l.iter().map(|(k, v)| format!("\"{}\":\"{}\"", esc(k), esc(v))).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let und: Vec<String> = self
            .undecided
            .iter()
            .map(|(n, d)| format!("{{\"obligation\":\"{}\",\"detail\":\"{}\"}}", esc(n), esc(d)))
            .collect();
        let uns: Vec<String> = self.unsupported.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        format!(
            "{{\"contract\":\"{}\",\"target\":\"{}\",\"paths\":{},\"infeasible\":{},\"confirmed\":{},\"unsupported\":[{}],\"obligations\":{{{}}},\"failed\":[{}],\"undecided\":[{}],\"smt_queries\":{},\"smt_ms\":{:.1},\"cvc5_queries\":{},\"unknown_branches\":{},\"truncated\":{},\"wall_s\":{:.3}}}",
            esc(&self.contract), esc(&self.target), self.paths, self.infeasible, self.confirmed, uns.join(","), obs.join(","), failed.join(","), und.join(","),
            self.smt_queries, self.smt_ms, self.cvc5_queries, self.unknown_branches, self.truncated, self.wall_s
        )
    }
}
