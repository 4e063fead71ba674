//! Hash-consed bit-vector expressions with eager simplification.
//! Every symbolic input is a byte of the "tape"; Var(i) is tape byte i.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // a, b = lo, w = width
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Ex {
    pub n: Vec<Node>,
    intern: HashMap<Node, Id>,
    consts: Vec<u128>,
    cintern: HashMap<(u128, u16), Id>,
    sup: Vec<u32>,             // support id per node
    pub sups: Vec<Box<[u32]>>, // support sets
    sup_intern: HashMap<Box<[u32]>, u32>,
    sup_union: HashMap<(u32, u32), u32>,
    tt: HashMap<Id, [u64; 4]>,
    mv: Vec<u128>,
    me: Vec<u32>,
    ep: u32,
    pub raw: bool, // disable simplification (self test)
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let (x, y) = (x & m, y & m);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u128 - 1 } else { y };
            (sx(x, w) >> s) as u128
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        _ => panic!("fold {:?}", op),
    };
    match op {
        Op::Eq | Op::Ult | Op::Slt => r,
        _ => r & m,
    }
}

impl Ex {
    pub fn new() -> Ex {
        let mut e = Ex {
            n: vec![],
            intern: HashMap::new(),
            consts: vec![],
            cintern: HashMap::new(),
            sup: vec![],
            sups: vec![Box::new([])],
            sup_intern: HashMap::new(),
            sup_union: HashMap::new(),
            tt: HashMap::new(),
            mv: vec![],
            me: vec![],
            ep: 0,
            raw: false,
        };
        e.sup_intern.insert(Box::new([]), 0);
        e.konst(0, 1); // id 0 is reserved: "no expression"
        e
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Id {
        let v = v & mask(w);
        if self.n.is_empty() {
            // reserve slot 0
            self.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
            self.consts.push(0);
            self.sup.push(0);
        }
        if let Some(&i) = self.cintern.get(&(v, w as u16)) {
            return i;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.n.len() as Id;
        self.n.push(Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0 });
        self.sup.push(0);
        self.cintern.insert((v, w as u16), id);
        id
    }
    pub fn tru(&mut self) -> Id {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> Id {
        self.konst(0, 1)
    }
    pub fn cv(&self, i: Id) -> Option<u128> {
        let n = &self.n[i as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn w(&self, i: Id) -> u32 {
        self.n[i as usize].w as u32
    }
    fn node(&self, i: Id) -> Node {
        self.n[i as usize]
    }
    pub fn support(&self, i: Id) -> &[u32] {
        &self.sups[self.sup[i as usize] as usize]
    }
    fn sup_set(&mut self, s: Box<[u32]>) -> u32 {
        if let Some(&i) = self.sup_intern.get(&s) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(s.clone());
        self.sup_intern.insert(s, i);
        i
    }
    fn sup_un(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.sup_union.get(&k) {
            return r;
        }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let r = self.sup_set(v.into_boxed_slice());
        self.sup_union.insert(k, r);
        r
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> Id {
        let nd = Node { op, w: w as u16, a, b, c };
        if let Some(&i) = self.intern.get(&nd) {
            return i;
        }
        let s = match op {
            Op::Var => self.sup_set(Box::new([a])),
            Op::Not | Op::SExt | Op::Extract => self.sup[a as usize],
            Op::Ite => {
                let t = self.sup_un(self.sup[a as usize], self.sup[b as usize]);
                self.sup_un(t, self.sup[c as usize])
            }
            _ => self.sup_un(self.sup[a as usize], self.sup[b as usize]),
        };
        let id = self.n.len() as Id;
        self.n.push(nd);
        self.sup.push(s);
        self.intern.insert(nd, id);
        id
    }
    pub fn var(&mut self, i: u32) -> Id {
        self.mk(Op::Var, 8, i, 0, 0)
    }
    pub fn not(&mut self, a: Id) -> Id {
        debug_assert_eq!(self.w(a), 1);
        if let Some(v) = self.cv(a) {
            return self.konst(1 - v, 1);
        }
        let n = self.node(a);
        if n.op == Op::Not && !self.raw {
            return n.a;
        }
        self.mk(Op::Not, 1, a, 0, 0)
    }
    pub fn and1(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::Or, a, b)
    }
    /// top-level segments, most significant first
    fn segs(&self, i: Id, out: &mut Vec<Id>) {
        let n = self.node(i);
        if n.op == Op::Concat {
            self.segs(n.a, out);
            self.segs(n.b, out);
        } else {
            out.push(i)
        }
    }
    fn top_zero(&self, i: Id) -> u32 {
        // number of leading bits known zero (syntactically)
        let n = self.node(i);
        if n.op == Op::Concat {
            if self.cv(n.a) == Some(0) {
                return self.w(n.a);
            }
            if let Some(c) = self.cv(n.a) {
                return c.leading_zeros() - (128 - self.w(n.a));
            }
            return 0;
        }
        if let Some(v) = self.cv(i) {
            return v.leading_zeros() - (128 - n.w as u32);
        }
        0
    }
    fn ite_leaves(&self, i: Id, budget: &mut i32) -> bool {
        // is i an ite tree with constant leaves (small)?
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        let n = self.node(i);
        match n.op {
            Op::Const => true,
            Op::Ite => self.ite_leaves(n.b, budget) && self.ite_leaves(n.c, budget),
            _ => false,
        }
    }
    fn is_ite_const(&self, i: Id, max: i32) -> bool {
        let mut b = max;
        self.n[i as usize].op == Op::Ite && self.ite_leaves(i, &mut b)
    }
    fn map_ite(&mut self, i: Id, op: Op, k: Id, left: bool) -> Id {
        let n = self.node(i);
        if n.op == Op::Ite {
            let x = self.map_ite(n.b, op, k, left);
            let y = self.map_ite(n.c, op, k, left);
            return self.ite(n.a, x, y);
        }
        if left {
            self.bin(op, i, k)
        } else {
            self.bin(op, k, i)
        }
    }
    /// try to combine a|b when set bits are syntactically disjoint
    fn disjoint_or(&mut self, a: Id, b: Id) -> Option<Id> {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 || sa.len() + sb.len() > 40 {
            return None;
        }
        // walk from the top
        let mut out: Vec<Id> = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut ra, mut rb) = (self.w(sa[0]), self.w(sb[0]));
        loop {
            let t = ra.min(rb);
            // piece of sa[i] bits [ra-1 .. ra-t]
            let pa = self.extract(sa[i], ra - t, t);
            let pb = self.extract(sb[j], rb - t, t);
            let p = if self.cv(pa) == Some(0) {
                pb
            } else if self.cv(pb) == Some(0) {
                pa
            } else {
                return None;
            };
            out.push(p);
            ra -= t;
            rb -= t;
            if ra == 0 {
                i += 1;
                if i == sa.len() {
                    break;
                }
                ra = self.w(sa[i]);
            }
            if rb == 0 {
                j += 1;
                rb = self.w(sb[j]);
            }
        }
        let mut r = *out.last().unwrap();
        for &p in out.iter().rev().skip(1) {
            r = self.concat(p, r);
        }
        Some(r)
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {:?} widths", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(fold(op, w, x, y), rw);
        }
        if self.raw {
            return self.mk(op, rw, a, b, 0);
        }
        let (mut a, mut b) = (a, b);
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let ca = self.cv(a);
        let cb = self.cv(b);
        let na = self.node(a);
        if cb.is_some() && self.is_ite_const(a, 40) {
            return self.map_ite(a, op, b, true);
        }
        if ca.is_some() && self.is_ite_const(b, 40) {
            return self.map_ite(b, op, a, false);
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
                if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
            }
            Op::Sub => {
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let kk = self.konst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, kk);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
            }
            Op::Mul => {
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // contiguous mask
                    let lo = k.trailing_zeros();
                    let t = k >> lo;
                    if t & t.wrapping_add(1) == 0 {
                        let len = 128 - t.leading_zeros();
                        let e = self.extract(a, lo, len);
                        let e = if lo > 0 {
                            let z = self.konst(0, lo);
                            self.concat(e, z)
                        } else {
                            e
                        };
                        return self.zext(e, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(k & k2, w);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::Concat {
                        return self.seg_bitop(op, a, k);
                    }
                }
                if w == 1 && (self.is_not_of(a, b)) {
                    return self.konst(0, 1);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                    if na.op == Op::Concat {
                        return self.seg_bitop(op, a, k);
                    }
                }
                if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
                if w == 1 && (self.is_not_of(a, b)) {
                    return self.konst(1, 1);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(k ^ k2, w);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if na.op == Op::Concat {
                        return self.seg_bitop(op, a, k);
                    }
                }
                if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    if k == 0 {
                        return a;
                    }
                    let e = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat(e, z);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    if k == 0 {
                        return a;
                    }
                    let e = self.extract(a, k, w - k);
                    return self.zext(e, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    if k == 0 {
                        return a;
                    }
                    let e = self.extract(a, k, w - k);
                    return self.sext(e, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let kh = self.konst(k >> wl, w - wl);
                            let kl = self.konst(k, wl);
                            let h = self.bin(Op::Eq, na.a, kh);
                            if self.cv(h) == Some(0) {
                                return h;
                            }
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.konst(k ^ k2, w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::SExt => {
                            let wi = self.w(na.a);
                            let lo = k & mask(wi);
                            if (sx(lo, wi) as u128) & m != k {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(lo, wi);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Ite => {
                            if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    // both symbolic: split equal-shaped concats
                    let nb = self.node(b);
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                    if w == 1 {
                        let x = self.bin(Op::Xor, a, b);
                        return self.not(x);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.konst(0, 1);
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return self.konst(0, 1);
                    }
                    if k == 1 {
                        let z = self.konst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                }
                if let Some(k) = ca {
                    if k == m {
                        return self.konst(0, 1);
                    }
                    if k == 0 {
                        let z = self.konst(0, w);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not(e);
                    }
                }
                let (za, zb) = (self.top_zero(a), self.top_zero(b));
                if ca.is_none() && za > 0 {
                    // a < 2^(w-za)
                    if let Some(k) = cb {
                        if k >> (w - za) != 0 {
                            return self.konst(1, 1);
                        }
                    }
                }
                if cb.is_none() && zb > 0 {
                    if let Some(k) = ca {
                        if k >> (w - zb) != 0 {
                            return self.konst(0, 1);
                        }
                    }
                }
                let z = za.min(zb);
                if z > 0 && z < w && (za == z || ca.is_some()) && (zb == z || cb.is_some() || zb > 0) {
                    let x = self.extract(a, 0, w - z);
                    let y = self.extract(b, 0, w - z);
                    if self.w(x) < w {
                        return self.bin(Op::Ult, x, y);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return self.konst(0, 1);
                }
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if self.top_zero(a) > 0 && self.top_zero(b) > 0 {
                    return self.bin(Op::Ult, a, b);
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0)
    }
    fn is_not_of(&self, a: Id, b: Id) -> bool {
        let (x, y) = (self.node(a), self.node(b));
        (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a)
    }
    fn seg_bitop(&mut self, op: Op, a: Id, k: u128) -> Id {
        let n = self.node(a);
        if n.op == Op::Concat {
            let wl = self.w(n.b);
            let h = self.seg_bitop(op, n.a, k >> wl);
            let l = self.seg_bitop(op, n.b, k & mask(wl));
            return self.concat(h, l);
        }
        let w = self.w(a);
        let kk = self.konst(k, w);
        self.bin(op, a, kk)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if self.raw {
            return self.mk(Op::Ite, w, c, a, b);
        }
        let nc = self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            if let Some(x) = self.cv(a) {
                if x == 1 {
                    return self.bin(Op::Or, c, b);
                }
                let n = self.not(c);
                return self.bin(Op::And, n, b);
            }
            if let Some(y) = self.cv(b) {
                if y == 1 {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                return self.bin(Op::And, c, a);
            }
        }
        let na = self.node(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.node(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let o = self.bin(Op::Or, c, nb.a);
            return self.ite(o, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn extract(&mut self, x: Id, lo: u32, len: u32) -> Id {
        let w = self.w(x);
        if lo == 0 && len == w {
            return x;
        }
        debug_assert!(lo + len <= w && len > 0);
        if let Some(v) = self.cv(x) {
            return self.konst(v >> lo, len);
        }
        let n = self.node(x);
        if !self.raw {
            match n.op {
                Op::Extract => return self.extract(n.a, n.b + lo, len),
                Op::Concat => {
                    let wl = self.w(n.b);
                    if lo >= wl {
                        return self.extract(n.a, lo - wl, len);
                    }
                    if lo + len <= wl {
                        return self.extract(n.b, lo, len);
                    }
                    let h = self.extract(n.a, 0, lo + len - wl);
                    let l = self.extract(n.b, lo, wl - lo);
                    return self.concat(h, l);
                }
                Op::Ite => {
                    if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                        let a = self.extract(n.b, lo, len);
                        let b = self.extract(n.c, lo, len);
                        return self.ite(n.a, a, b);
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.extract(n.a, lo, len);
                    let b = self.extract(n.b, lo, len);
                    return self.bin(n.op, a, b);
                }
                Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                    let a = self.extract(n.a, 0, len);
                    let b = self.extract(n.b, 0, len);
                    return self.bin(n.op, a, b);
                }
                Op::SExt => {
                    let wi = self.w(n.a);
                    if lo + len <= wi {
                        return self.extract(n.a, lo, len);
                    }
                    if lo < wi {
                        let e = self.extract(n.a, lo, wi - lo);
                        return self.sext(e, len);
                    }
                    let s = self.extract(n.a, wi - 1, 1);
                    return self.sext(s, len);
                }
                _ => {}
            }
        }
        self.mk(Op::Extract, len, x, lo, 0)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (wh, wl) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.konst((x << wl) | y, wh + wl);
        }
        if !self.raw {
            let nh = self.node(h);
            if nh.op == Op::Concat {
                let t = self.concat(nh.b, l);
                return self.concat(nh.a, t);
            }
            let nl = self.node(l);
            if let Some(x) = self.cv(h) {
                if nl.op == Op::Concat {
                    if let Some(y) = self.cv(nl.a) {
                        let k = self.konst((x << self.w(nl.a)) | y, wh + self.w(nl.a));
                        return self.concat(k, nl.b);
                    }
                }
            }
            // adjacent extracts
            let (hd, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (l, None) };
            let joined = self.join(h, hd);
            if let Some(j) = joined {
                return match rest {
                    Some(r) => self.concat(j, r),
                    None => j,
                };
            }
        }
        self.mk(Op::Concat, wh + wl, h, l, 0)
    }
    /// h:l where both are extracts of one source and adjacent
    fn join(&mut self, h: Id, l: Id) -> Option<Id> {
        let nh = self.node(h);
        if nh.op != Op::Extract {
            return None;
        }
        let nl = self.node(l);
        if nl.op == Op::Extract && nl.a == nh.a && nl.b + nl.w as u32 == nh.b {
            return Some(self.extract(nh.a, nl.b, nh.w as u32 + nl.w as u32));
        }
        None
    }
    pub fn zext(&mut self, x: Id, w: u32) -> Id {
        let wx = self.w(x);
        if wx >= w {
            return x;
        }
        let z = self.konst(0, w - wx);
        self.concat(z, x)
    }
    pub fn sext(&mut self, x: Id, w: u32) -> Id {
        let wx = self.w(x);
        if wx >= w {
            return x;
        }
        if let Some(v) = self.cv(x) {
            return self.konst(sx(v, wx) as u128, w);
        }
        if !self.raw {
            if self.top_zero(x) > 0 {
                return self.zext(x, w);
            }
            let n = self.node(x);
            if n.op == Op::SExt {
                return self.sext(n.a, w);
            }
            if self.is_ite_const(x, 40) {
                let a = self.sext(n.b, w);
                let b = self.sext(n.c, w);
                return self.ite(n.a, a, b);
            }
        }
        self.mk(Op::SExt, w, x, 0, 0)
    }
    pub fn ne(&mut self, a: Id, b: Id) -> Id {
        let e = self.bin(Op::Eq, a, b);
        self.not(e)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let e = self.bin(Op::Ult, b, a);
        self.not(e)
    }

    pub fn begin_eval(&mut self) {
        self.ep += 1;
        if self.mv.len() < self.n.len() {
            self.mv.resize(self.n.len() + 1024, 0);
            self.me.resize(self.n.len() + 1024, 0);
        }
    }
    pub fn eval(&mut self, id: Id, model: &[u8]) -> u128 {
        self.begin_eval();
        self.ev(id, model)
    }
    fn ev(&mut self, id: Id, m: &[u8]) -> u128 {
        let n = self.n[id as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return m.get(n.a as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.me[id as usize] == self.ep {
            return self.mv[id as usize];
        }
        let r = match n.op {
            Op::Not => 1 - self.ev(n.a, m),
            Op::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                (self.ev(n.a, m) << wl) | self.ev(n.b, m)
            }
            Op::Extract => (self.ev(n.a, m) >> n.b) & mask(n.w as u32),
            Op::SExt => {
                let wi = self.w(n.a);
                (sx(self.ev(n.a, m), wi) as u128) & mask(n.w as u32)
            }
            op => {
                let w = self.w(n.a);
                let x = self.ev(n.a, m);
                let y = self.ev(n.b, m);
                fold(op, w, x, y)
            }
        };
        self.mv[id as usize] = r;
        self.me[id as usize] = self.ep;
        r
    }
    /// truth table of a width-1 expression over its only variable
    pub fn truth(&mut self, id: Id, v: u32) -> [u64; 4] {
        if let Some(t) = self.tt.get(&id) {
            return *t;
        }
        let mut m = vec![0u8; v as usize + 1];
        let mut t = [0u64; 4];
        for x in 0..256usize {
            m[v as usize] = x as u8;
            if self.eval(id, &m) == 1 {
                t[x >> 6] |= 1 << (x & 63);
            }
        }
        self.tt.insert(id, t);
        t
    }
}

/// Self test: simplified and raw construction agree on random models.
pub fn selftest(seed: u64, iters: usize) -> Result<usize, String> {
    let mut s = seed | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let mut n = 0;
    for _ in 0..iters {
        let mut e = Ex::new();
        let mut pool: Vec<(Id, Id)> = vec![]; // simplified, raw
        for i in 0..4 {
            let v = e.var(i);
            pool.push((v, v));
        }
        for _ in 0..30 {
            let r = rnd();
            let (a, ar) = pool[(rnd() % pool.len() as u64) as usize];
            let (b0, br0) = pool[(rnd() % pool.len() as u64) as usize];
            let w = e.w(a);
            // bring b to width w (or use a constant)
            let (b, br) = if rnd() % 3 == 0 {
                let kv = match rnd() % 4 {
                    0 => rnd() as u128 & 0xff,
                    1 => 1u128 << (rnd() % w as u64),
                    2 => mask((rnd() % w as u64) as u32 + 1),
                    _ => rnd() as u128,
                };
                let k = e.konst(kv, w);
                (k, k)
            } else {
                let wb = e.w(b0);
                if wb > w {
                    e.raw = false;
                    let x = e.extract(b0, 0, w);
                    e.raw = true;
                    let y = e.extract(br0, 0, w);
                    (x, y)
                } else {
                    let sgn = rnd() % 2 == 0;
                    e.raw = false;
                    let x = if sgn { e.sext(b0, w) } else { e.zext(b0, w) };
                    e.raw = true;
                    let y = if sgn { e.sext(br0, w) } else { e.zext(br0, w) };
                    (x, y)
                }
            };
            let ops = [
                Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr,
                Op::AShr, Op::Eq, Op::Ult, Op::Slt,
            ];
            let mut both = |e: &mut Ex, f: &mut dyn FnMut(&mut Ex, bool) -> Id| {
                e.raw = false;
                let x = f(e, false);
                e.raw = true;
                let y = f(e, true);
                e.raw = false;
                pool.push((x, y));
            };
            match r % 24 {
                k if k < 16 => {
                    let op = ops[k as usize];
                    both(&mut e, &mut |e, raw| if raw { e.bin(op, ar, br) } else { e.bin(op, a, b) });
                }
                16 | 17 => {
                    let lo = (rnd() % w as u64) as u32;
                    let len = 1 + (rnd() % (w - lo) as u64) as u32;
                    both(&mut e, &mut |e, raw| e.extract(if raw { ar } else { a }, lo, len));
                }
                18 | 19 => {
                    let wb = e.w(b0);
                    if w + wb <= 64 {
                        both(&mut e, &mut |e, raw| if raw { e.concat(ar, br0) } else { e.concat(a, b0) });
                    }
                }
                20 | 21 => {
                    // ite with boolean from pool
                    let c = pool2(&pool, &e);
                    if let Some((c, cr)) = c {
                        let mut both = |e: &mut Ex, f: &mut dyn FnMut(&mut Ex, bool) -> Id| {
                            e.raw = false;
                            let x = f(e, false);
                            e.raw = true;
                            let y = f(e, true);
                            e.raw = false;
                            pool.push((x, y));
                        };
                        both(&mut e, &mut |e, raw| if raw { e.ite(cr, ar, br) } else { e.ite(c, a, b) });
                    }
                }
                _ => {
                    if w == 1 {
                        both(&mut e, &mut |e, raw| e.not(if raw { ar } else { a }));
                    }
                }
            }
            e.raw = false;
        }
        for _ in 0..8 {
            let m: Vec<u8> = (0..4).map(|_| if rnd() % 4 == 0 { 0 } else { rnd() as u8 }).collect();
            for &(x, y) in &pool {
                if e.w(x) != e.w(y) {
                    return Err(format!("width mismatch {} {}", e.show(x), e.show(y)));
                }
                let (p, q) = (e.eval(x, &m), e.eval(y, &m));
                n += 1;
                if p != q {
                    return Err(format!("mismatch on {:?}: {} = {} but {} = {}", m, e.show(x), p, e.show(y), q));
                }
            }
        }
    }
    Ok(n)
}
fn pool2(p: &[(Id, Id)], e: &Ex) -> Option<(Id, Id)> {
    p.iter().rev().find(|x| e.w(x.0) == 1).copied()
}
impl Ex {
    pub fn show(&self, i: Id) -> String {
        let n = self.n[i as usize];
        match n.op {
            Op::Const => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}", n.a),
            Op::Not => format!("!{}", self.show(n.a)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a), self.show(n.b), self.show(n.c)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a), n.b, n.w),
            Op::SExt => format!("sx{}({})", n.w, self.show(n.a)),
            op => format!("{:?}({},{})", op, self.show(n.a), self.show(n.b)),
        }
    }
}
