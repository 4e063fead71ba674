//! Path-forking symbolic executor over the parsed LLVM IR.
use crate::expr::*;
use crate::ir::{Cast, Func, Ins, Module, Opd, Pred, Ty, FUNC, GLOB, STACK, T, V};
use crate::ir;
use crate::solver::Solver;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<Id>, // empty, or one entry per data byte; 0 = concrete
}
impl Obj {
    fn new(size: u64) -> Obj {
        let n = if size > 1 << 20 { 0 } else { size as usize };
        Obj { size, data: vec![0; n], sym: vec![] }
    }
    fn ensure(&mut self, end: usize) {
        if self.data.len() < end {
            let n = end.max(self.data.len() * 2).min(self.size as usize);
            self.data.resize(n, 0);
            if !self.sym.is_empty() {
                self.sym.resize(n, 0);
            }
        }
    }
    fn has_sym(&self, off: usize, n: usize) -> bool {
        !self.sym.is_empty() && off < self.sym.len() && self.sym[off..(off + n).min(self.sym.len())].iter().any(|&x| x != 0)
    }
    fn byte(&self, off: usize) -> (u8, Id) {
        (self.data.get(off).copied().unwrap_or(0), self.sym.get(off).copied().unwrap_or(0))
    }
}

const LEAVES: usize = 20000;
const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    blk: u32,
    idx: u32,
    regs: Vec<V>,
    sbase: u32,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    stack: Vec<Rc<Frame>>,
    heap: Vec<Rc<Chunk>>,
    heap_n: u32,
    smem: Vec<Rc<Obj>>,
    globs: Rc<HashMap<u32, Rc<Obj>>>,
    clock: u64,
    pc: Vec<Id>,
    dom: Vec<[u64; 4]>,
    multi: Vec<bool>,
    fixed: Vec<bool>,
    model: Vec<u8>,
    steps: u64,
    obs: Vec<(V, u32)>,
    forks: u32,
    conc: u32,
}

pub enum Stop {
    End(&'static str),
    Viol(String, String), // kind, detail
    Infeasible,
    Err(String),
}
type X<A> = Result<A, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Any,
    Assume,
    Check,
    Cover,
    Obs,
    Conc,
    Param,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Memcpy,
    Memset,
    Strlen,
    Abort,
    Exit,
    Panic,
    Getrandom,
    Ret0,
    Errno,
    Syscall,
    Write,
    Clock,
    Intrinsic,
    End,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,       // assertion sites decided on some path
    pub checks_smt: u64,   // ... by a solver query
    pub branch_dom: u64,   // branch feasibility decided by the byte-domain table
    pub max_tape: u64,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<u8>, Vec<u64>, String)>,
    pub violation: Option<(String, String, Vec<u8>)>,
    pub error: Option<String>,
    pub incomplete: Option<String>,
    pub known: BTreeMap<String, Vec<u8>>,
    pub closed: u64,       // subtrees whose paths the solver showed to cover all their inputs
    pub open: u64,         // ... too large to ask, or no answer in time
    pub closed_paths: u64, // paths in those closed
}

pub struct Exec {
    pub m: Module,
    pub e: Ex,
    pub s: Solver,
    pub st: Stats,
    pub work: VecDeque<State>,
    gconst: HashMap<u32, Rc<Obj>>,
    gkind: HashMap<u32, (u64, bool)>,
    bis: Vec<Bi>,
    pub param: u64,
    pub fixed_tape: Option<Vec<u8>>,
    pub leaves: Vec<Vec<Id>>,
    pub close_ms: u32,
    pub max_steps: u64,
    pub nsamples: usize,
    called: Vec<u64>,
    rng: u64,
    domx: HashMap<(u32, [u64; 4]), Id>,
    pub trace: bool,
    vbytes: Vec<Id>,
}

fn full() -> [u64; 4] {
    [!0; 4]
}
fn dand(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dnot(a: &[u64; 4]) -> [u64; 4] {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn dempty(a: &[u64; 4]) -> bool {
    a.iter().all(|&x| x == 0)
}
fn dcount(a: &[u64; 4]) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
fn dhas(a: &[u64; 4], v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
fn dfirst(a: &[u64; 4]) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1 << w) - 1
    }
}
fn s64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let mut bis = vec![];
        for f in &m.fns {
            bis.push(classify(&f.name, f.body.is_some()));
        }
        let n = m.fns.len();
        Exec {
            m,
            e: Ex::new(),
            s: Solver::new(60_000),
            st: Stats::default(),
            work: VecDeque::new(),
            gconst: HashMap::new(),
            gkind: HashMap::new(),
            bis,
            param: 0,
            fixed_tape: None,
            leaves: vec![],
            close_ms: 15000,
            max_steps: 50_000_000,
            nsamples: 12,
            called: vec![0; n],
            rng: 0x9E3779B97F4A7C15,
            domx: HashMap::new(),
            trace: false,
            vbytes: vec![],
        }
    }
    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let f = *self.m.fn_ix.get(name).ok_or(format!("no function {}", name))?;
        let func = self.m.func(f)?;
        let st = State {
            top: Frame { f: func, blk: 0, idx: 0, regs: vec![V::C(0); func.nregs as usize], sbase: 0, dst: None, normal: None },
            stack: vec![],
            heap: vec![],
            heap_n: 0,
            smem: vec![],
            globs: Rc::new(HashMap::new()),
            pc: vec![],
            dom: vec![],
            multi: vec![],
            fixed: vec![],
            model: vec![],
            steps: 0,
            obs: vec![],
            forks: 0,
            clock: 0,
            conc: 0,
        };
        self.called[f as usize] += 1;
        self.work.push_back(st);
        Ok(())
    }
    pub fn zero_called(&mut self) {
        for c in self.called.iter_mut() {
            *c = 0;
        }
    }
    pub fn finish_stats(&mut self) {
        for (i, c) in self.called.iter().enumerate() {
            if *c > 0 {
                self.st.funcs.insert(self.m.fns[i].name.clone(), *c);
            }
        }
    }

    // ----- values -----
    fn id(&mut self, v: &V, w: u32) -> Id {
        match v {
            V::C(c) => self.e.konst(*c as u128, w),
            V::E(i) => *i,
            V::W(x) => self.e.konst(**x, w),
            V::A(_) => panic!("id of aggregate"),
        }
    }
    /// expression -> value; concrete when it is constant or all its bytes are pinned
    fn val(&mut self, st: &State, i: Id) -> V {
        let w = self.e.w(i);
        if let Some(c) = self.e.cv(i) {
            return Module::mkint(c as i128, w);
        }
        let sup = self.e.support(i);
        if sup.iter().all(|&v| st.fixed[v as usize]) {
            let c = self.e.eval(i, &st.model);
            return Module::mkint(c as i128, w);
        }
        V::E(i)
    }
    fn cond(&mut self, st: &State, v: &V) -> V {
        match v {
            V::C(c) => V::C(*c & 1),
            V::E(i) => self.val(st, *i),
            _ => panic!("cond"),
        }
    }

    // ----- constraints -----
    fn conjs(&self, c: Id, out: &mut Vec<Id>) {
        let n = self.e.n[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.conjs(n.a, out);
            self.conjs(n.b, out);
        } else {
            out.push(c);
        }
    }
    fn domx(&mut self, v: u32, d: &[u64; 4]) -> Id {
        if let Some(&i) = self.domx.get(&(v, *d)) {
            return i;
        }
        let x = self.e.var(v);
        let mut r = self.e.fls();
        let mut i = 0usize;
        while i < 256 {
            if dhas(d, i as u8) {
                let mut j = i;
                while j + 1 < 256 && dhas(d, (j + 1) as u8) {
                    j += 1
                }
                let lo = self.e.konst(i as u128, 8);
                let hi = self.e.konst(j as u128, 8);
                let c = if i == j {
                    self.e.bin(Op::Eq, x, lo)
                } else {
                    let a = self.e.ule(lo, x);
                    let b = self.e.ule(x, hi);
                    self.e.and1(a, b)
                };
                r = self.e.or1(r, c);
                i = j + 1;
            } else {
                i += 1
            }
        }
        self.domx.insert((v, *d), r);
        r
    }
    /// Can `c` hold on this path? Returns the model changes that make it so.
    fn feasible(&mut self, st: &State, c: Id) -> X<Option<Vec<(u32, u8)>>> {
        if let Some(v) = self.e.cv(c) {
            return Ok(if v == 1 { Some(vec![]) } else { None });
        }
        let mut cs = vec![];
        self.conjs(c, &mut cs);
        let mut refined: Vec<(u32, [u64; 4])> = vec![];
        let mut all_unary = true;
        for &k in &cs {
            let sup = self.e.support(k);
            if sup.len() == 1 {
                let v = sup[0];
                let t = self.e.truth(k, v);
                let p = match refined.iter().position(|x| x.0 == v) {
                    Some(p) => p,
                    None => {
                        refined.push((v, st.dom[v as usize]));
                        refined.len() - 1
                    }
                };
                let nd = dand(&refined[p].1, &t);
                if dempty(&nd) {
                    self.st.branch_dom += 1;
                    return Ok(None);
                }
                refined[p].1 = nd;
            } else {
                all_unary = false;
            }
        }
        if self.e.eval(c, &st.model) == 1 {
            return Ok(Some(vec![]));
        }
        if all_unary && refined.iter().all(|x| !st.multi[x.0 as usize] || st.fixed[x.0 as usize]) {
            self.st.branch_dom += 1;
            return Ok(Some(
                refined
                    .iter()
                    .filter(|x| !dhas(&x.1, st.model[x.0 as usize]))
                    .map(|x| (x.0, dfirst(&x.1)))
                    .collect(),
            ));
        }
        self.query(st, &cs, &refined, false)
    }
    fn query(&mut self, st: &State, cs: &[Id], refined: &[(u32, [u64; 4])], force: bool) -> X<Option<Vec<(u32, u8)>>> {
        // slice: constraints connected through non-pinned bytes
        let mut vars: Vec<bool> = vec![false; st.dom.len()];
        let mut todo: Vec<u32> = vec![];
        let mut conj: Vec<Id> = vec![];
        for &k in cs {
            for &v in self.e.support(k) {
                if !vars[v as usize] {
                    vars[v as usize] = true;
                    todo.push(v);
                }
            }
            if force || self.e.support(k).len() > 1 {
                conj.push(k);
            }
        }
        let mut used = vec![false; st.pc.len()];
        let mut changed = true;
        while changed {
            changed = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let sup = self.e.support(p);
                if sup.iter().any(|&v| vars[v as usize] && !st.fixed[v as usize]) {
                    used[i] = true;
                    changed = true;
                    conj.push(p);
                    for &v in sup {
                        if !vars[v as usize] {
                            vars[v as usize] = true;
                        }
                    }
                }
            }
        }
        for v in 0..vars.len() {
            if vars[v] {
                let d = refined.iter().find(|x| x.0 == v as u32).map(|x| x.1).unwrap_or(st.dom[v]);
                if d != full() {
                    let x = self.domx(v as u32, &d);
                    conj.push(x);
                }
            }
        }
        self.s.check(&self.e, &conj).map_err(Stop::Err)
    }
    fn assume(&mut self, st: &mut State, c: Id, upd: &[(u32, u8)]) {
        for &(v, x) in upd {
            st.model[v as usize] = x;
        }
        let mut cs = vec![];
        self.conjs(c, &mut cs);
        for k in cs {
            if self.e.cv(k).is_some() {
                continue;
            }
            let sup = self.e.support(k);
            if sup.len() == 1 {
                let v = sup[0];
                let t = self.e.truth(k, v);
                let d = dand(&st.dom[v as usize], &t);
                st.dom[v as usize] = d;
                if dcount(&d) == 1 {
                    st.fixed[v as usize] = true;
                }
            } else {
                for &v in sup {
                    st.multi[v as usize] = true;
                }
                st.pc.push(k);
            }
        }
        if cfg!(debug_assertions) || self.trace {
            assert_eq!(self.e.eval(c, &st.model), 1, "model violates new constraint");
        }
    }
    /// decide a symbolic condition: follow one side, queue the other
    fn branch(&mut self, st: &mut State, c: Id) -> X<bool> {
        let now = self.e.eval(c, &st.model) == 1;
        let nc = self.e.not(c);
        let other = if now { nc } else { c };
        if let Some(upd) = self.feasible(st, other)? {
            self.st.forks += 1;
            let mut o = st.clone();
            o.forks += 1;
            self.assume(&mut o, other, &upd);
            self.work.push_back(o);
        }
        let mine = if now { c } else { nc };
        self.assume(st, mine, &[]);
        Ok(now)
    }
    /// pick the model's value for v, queueing a sibling for every other value
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> X<u64> {
        let i = match v {
            V::C(c) => return Ok(*c),
            V::E(i) => *i,
            V::W(x) => return Ok(**x as u64),
            _ => return Err(Stop::Err("concretize aggregate".into())),
        };
        if let V::C(c) = self.val(st, i) {
            return Ok(c);
        }
        let x = self.e.eval(i, &st.model);
        let k = self.e.konst(x, w);
        let eq = self.e.bin(Op::Eq, i, k);
        let ne = self.e.not(eq);
        // a term over one unrelated byte: all its values at once
        let sup = self.e.support(i);
        if sup.len() == 1 && !st.multi[sup[0] as usize] {
            let v = sup[0];
            let mut vals: BTreeMap<u128, u8> = BTreeMap::new();
            let mut m = st.model.clone();
            for b in 0..=255u8 {
                if dhas(&st.dom[v as usize], b) {
                    m[v as usize] = b;
                    vals.entry(self.e.eval(i, &m)).or_insert(b);
                }
            }
            if vals.len() <= 64 {
                for (y, b) in vals {
                    if y != x {
                        self.st.forks += 1;
                        self.st.branch_dom += 1;
                        let k = self.e.konst(y, w);
                        let c = self.e.bin(Op::Eq, i, k);
                        let mut o = st.clone();
                        o.conc += 1;
                        self.assume(&mut o, c, &[(v, b)]);
                        self.work.push_back(o);
                    }
                }
                self.assume(st, eq, &[]);
                return Ok(x as u64);
            }
        }
        if let Some(upd) = self.feasible(st, ne)? {
            self.st.forks += 1;
            let mut o = st.clone();
            o.conc += 1;
            if o.conc > 20000 {
                return Err(Stop::Err(format!("too many values while concretizing in {}", st.top.f.name)));
            }
            self.assume(&mut o, ne, &upd);
            self.work.push_back(o);
        }
        self.assume(st, eq, &[]);
        Ok(x as u64)
    }

    // ----- memory -----
    fn gobj(&mut self, g: u32) -> X<(u64, bool)> {
        if let Some(k) = self.gkind.get(&g) {
            return Ok(*k);
        }
        let (t, bytes, konst) = self.m.global(g).map_err(|e| Stop::Err(format!("global {}: {}", self.m.globs[g as usize].name, e)))?;
        let size = t.size();
        self.gconst.insert(g, Rc::new(Obj { size, data: bytes, sym: vec![] }));
        self.gkind.insert(g, (size, konst));
        Ok((size, konst))
    }
    /// object for a concrete address, as a shared reference
    fn obj(&mut self, st: &State, addr: u64, n: u64) -> X<(Rc<Obj>, usize)> {
        let h = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = if h >= (FUNC >> 32) {
            None
        } else if h >= STACK {
            st.smem.get((h - STACK) as usize).cloned()
        } else if h >= GLOB {
            let g = (h - GLOB) as u32;
            if let Some(o) = st.globs.get(&g) {
                Some(o.clone())
            } else if (g as usize) < self.m.globs.len() {
                self.gobj(g)?;
                self.gconst.get(&g).cloned()
            } else {
                None
            }
        } else if h >= 1 {
            let i = (h - 1) as usize;
            st.heap.get(i / CH).and_then(|c| c.get(i % CH).cloned().flatten())
        } else {
            None
        };
        match o {
            Some(o) if off as u64 + n <= o.size => Ok((o, off)),
            Some(o) => Err(Stop::Viol("memory".into(), format!("out-of-bounds access: offset {} + {} > size {} {}", off, n, o.size, self.bt(st)))),
            None => Err(Stop::Viol("memory".into(), format!("access to invalid address {:#x} {}", addr, self.bt(st)))),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> X<(&'a mut Obj, usize)> {
        let h = addr >> 32;
        // bounds check (clone of the Rc must be dropped before make_mut)
        {
            self.obj(st, addr, n)?;
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o: &'a mut Rc<Obj> = if h >= STACK {
            &mut st.smem[(h - STACK) as usize]
        } else if h >= GLOB {
            let g = (h - GLOB) as u32;
            if self.gkind.get(&g).map(|k| k.1).unwrap_or(false) {
                return Err(Stop::Viol("memory".into(), format!("write to constant {}", self.m.globs[g as usize].name)));
            }
            let m = Rc::make_mut(&mut st.globs);
            if !m.contains_key(&g) {
                let o = self.gconst.get(&g).cloned().unwrap();
                m.insert(g, o);
            }
            m.get_mut(&g).unwrap()
        } else {
            let i = (h - 1) as usize;
            Rc::make_mut(&mut st.heap[i / CH])[i % CH].as_mut().unwrap()
        };
        let o = Rc::make_mut(o);
        o.ensure(off + n as usize);
        Ok((o, off))
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let i = st.heap_n as usize;
        st.heap_n += 1;
        let o = Some(Rc::new(Obj::new(size)));
        if i % CH == 0 {
            st.heap.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut st.heap[i / CH]).push(o);
        ((i as u64) + 1) << 32
    }
    fn free(&mut self, st: &mut State, addr: u64) -> X<()> {
        if addr == 0 {
            return Ok(());
        }
        let (_, off) = self.obj(st, addr, 0)?;
        let h = addr >> 32;
        if off != 0 || h >= GLOB {
            return Err(Stop::Viol("memory".into(), format!("invalid free {:#x}", addr)));
        }
        let i = (h - 1) as usize;
        Rc::make_mut(&mut st.heap[i / CH])[i % CH] = None;
        Ok(())
    }
    fn read_int(&mut self, o: &Obj, off: usize, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        if !o.has_sym(off, n) {
            let mut x = 0u128;
            for k in (0..n).rev() {
                x = x << 8 | o.data.get(off + k).copied().unwrap_or(0) as u128;
            }
            return Module::mkint(x as i128, w);
        }
        let mut r: Option<Id> = None;
        for k in 0..n {
            let (b, s) = o.byte(off + k);
            let x = if s != 0 { s } else { self.e.konst(b as u128, 8) };
            r = Some(match r {
                None => x,
                Some(l) => self.e.concat(x, l),
            });
        }
        let mut i = r.unwrap();
        if w % 8 != 0 {
            i = self.e.extract(i, 0, w);
        }
        V::E(i)
    }
    fn fix(&mut self, st: &State, v: V) -> V {
        match v {
            V::E(i) => self.val(st, i),
            v => v,
        }
    }
    fn read_ty(&mut self, st: &State, o: &Obj, off: usize, t: T) -> X<V> {
        Ok(match t {
            Ty::Int(w) => {
                let v = self.read_int(o, off, *w);
                self.fix(st, v)
            }
            Ty::Ptr | Ty::F64 => {
                let v = self.read_int(o, off, 64);
                self.fix(st, v)
            }
            Ty::F32 => {
                let v = self.read_int(o, off, 32);
                self.fix(st, v)
            }
            Ty::Vec(n, e) => {
                let eb = e.bits();
                if eb % 8 == 0 {
                    let mut r = Vec::with_capacity(*n as usize);
                    for i in 0..*n as usize {
                        let v = self.read_int(o, off + i * (eb / 8) as usize, eb);
                        r.push(self.fix(st, v));
                    }
                    V::A(Rc::new(r))
                } else {
                    let v = self.read_int(o, off, eb * n);
                    self.split(st, v, *n, eb)
                }
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut r = vec![];
                for i in 0..t.count() {
                    r.push(self.read_ty(st, o, off + t.field_off(i) as usize, t.elem(i))?);
                }
                V::A(Rc::new(r))
            }
            _ => return Err(Stop::Err(format!("load {:?}", t))),
        })
    }
    fn split(&mut self, st: &State, v: V, n: u32, eb: u32) -> V {
        let mut r = vec![];
        let i = self.id(&v, n * eb);
        for k in 0..n {
            let x = self.e.extract(i, k * eb, eb);
            r.push(self.val(st, x));
        }
        V::A(Rc::new(r))
    }
    fn write_int(&mut self, o: &mut Obj, off: usize, v: &V, w: u32) {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(_) | V::W(_) => {
                let x: u128 = match v {
                    V::C(c) => *c as u128,
                    V::W(c) => **c,
                    _ => 0,
                };
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for k in 0..n {
                        o.sym[off + k] = 0;
                    }
                }
            }
            V::E(i) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                let i = if w % 8 != 0 { self.e.zext(*i, (n * 8) as u32) } else { *i };
                for k in 0..n {
                    let b = self.e.extract(i, (k * 8) as u32, 8);
                    if let Some(c) = self.e.cv(b) {
                        o.data[off + k] = c as u8;
                        o.sym[off + k] = 0;
                    } else {
                        o.sym[off + k] = b;
                    }
                }
            }
            V::A(_) => panic!("write_int aggregate"),
        }
    }
    fn write_ty(&mut self, o: &mut Obj, off: usize, v: &V, t: T) -> X<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.write_int(o, off, v, t.bits()),
            Ty::Vec(n, e) => {
                let a = match v {
                    V::A(a) => a.clone(),
                    _ => return Err(Stop::Err("store vec".into())),
                };
                let eb = e.bits();
                if eb % 8 == 0 {
                    for i in 0..*n as usize {
                        self.write_int(o, off + i * (eb / 8) as usize, &a[i], eb);
                    }
                } else {
                    let x = self.join(&a, eb);
                    self.write_int(o, off, &x, eb * n);
                }
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                if let V::A(a) = v {
                    for i in 0..t.count() {
                        self.write_ty(o, off + t.field_off(i) as usize, &a[i], t.elem(i))?;
                    }
                }
            }
            _ => return Err(Stop::Err(format!("store {:?}", t))),
        }
        Ok(())
    }
    fn join(&mut self, a: &[V], eb: u32) -> V {
        let mut r = self.id(&a[0], eb);
        for x in &a[1..] {
            let i = self.id(x, eb);
            r = self.e.concat(i, r);
        }
        match self.e.cv(r) {
            Some(c) => Module::mkint(c as i128, self.e.w(r)),
            None => V::E(r),
        }
    }
    /// feasible values of i (bounded enumeration)
    fn values(&mut self, st: &State, i: Id, max: usize) -> X<Option<Vec<u128>>> {
        let sup: Vec<u32> = self.e.support(i).iter().copied().filter(|&v| !st.fixed[v as usize]).collect();
        let mut out: Vec<u128> = vec![];
        if sup.len() == 1 {
            let v = sup[0] as usize;
            let mut m = st.model.clone();
            for x in 0..256usize {
                if dhas(&st.dom[v], x as u8) {
                    m[v] = x as u8;
                    let r = self.e.eval(i, &m);
                    if !out.contains(&r) {
                        out.push(r);
                    }
                }
            }
            return Ok(Some(out));
        }
        let w = self.e.w(i);
        let mut block = self.e.tru();
        loop {
            let x = match self.feasible(st, block)? {
                None => return Ok(Some(out)),
                Some(u) => {
                    let mut m = st.model.clone();
                    for (v, b) in u {
                        m[v as usize] = b;
                    }
                    self.e.eval(i, &m)
                }
            };
            out.push(x);
            if out.len() > max {
                return Ok(None);
            }
            let k = self.e.konst(x, w);
            let ne = self.e.ne(i, k);
            block = self.e.and1(block, ne);
        }
    }
    fn load(&mut self, st: &mut State, addr: &V, t: T) -> X<V> {
        match addr {
            V::C(a) => {
                let (o, off) = self.obj(st, *a, t.size())?;
                self.read_ty(st, &o, off, t)
            }
            V::E(i) => {
                if let V::C(a) = self.val(st, *i) {
                    return self.load(st, &V::C(a), t);
                }
                let sz = t.size();
                let a = self.e.eval(*i, &st.model) as u64;
                let base = a & !0xffff_ffff;
                let (o, _) = self.obj(st, a, sz)?;
                // stay inside this object; other objects on a sibling path
                let b = self.e.konst(base as u128, 64);
                let off = self.e.bin(Op::Sub, *i, b);
                let lim = self.e.konst((o.size - sz) as u128, 64);
                let inside = self.e.ule(off, lim);
                let outside = self.e.not(inside);
                if let Some(upd) = self.feasible(st, outside)? {
                    self.st.forks += 1;
                    let mut s2 = st.clone();
                    self.assume(&mut s2, outside, &upd);
                    self.work.push_back(s2);
                }
                self.assume(st, inside, &[]);
                if matches!(t, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
                    let a = self.concretize(st, addr, 64)?;
                    return self.load(st, &V::C(a), t);
                }
                let vals = match self.values(st, *i, 256)? {
                    Some(v) => v,
                    None => {
                        let a = self.concretize(st, addr, 64)?;
                        return self.load(st, &V::C(a), t);
                    }
                };
                let w = t.bits();
                let mut groups: Vec<(Id, Vec<u64>)> = vec![];
                for x in vals {
                    let x = x as u64;
                    let v = self.read_ty(st, &o, (x & 0xffff_ffff) as usize, t)?;
                    let vi = self.id(&v, w);
                    match groups.iter_mut().find(|g| g.0 == vi) {
                        Some(g) => g.1.push(x),
                        None => groups.push((vi, vec![x])),
                    }
                }
                // the largest group is the default
                groups.sort_by_key(|g| g.1.len());
                let mut r = groups.pop().unwrap().0;
                for (v, xs) in groups {
                    let mut c = self.e.fls();
                    for x in xs {
                        let k = self.e.konst(x as u128, 64);
                        let eq = self.e.bin(Op::Eq, *i, k);
                        c = self.e.or1(c, eq);
                    }
                    r = self.e.ite(c, v, r);
                }
                Ok(self.val(st, r))
            }
            _ => Err(Stop::Err("load address".into())),
        }
    }
    fn store(&mut self, st: &mut State, addr: &V, v: &V, t: T) -> X<()> {
        let a = self.concretize(st, addr, 64)?;
        // detach to satisfy borrows: write through a raw pointer to the object
        let p: *mut Exec = self;
        let (o, off) = self.obj_mut(st, a, t.size())?;
        unsafe { (*p).write_ty(o, off, v, t) }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (so, soff) = self.obj(st, s, n)?;
        let n = n as usize;
        let mut data = vec![0u8; n];
        if soff < so.data.len() {
            let e = (soff + n).min(so.data.len());
            data[..e - soff].copy_from_slice(&so.data[soff..e]);
        }
        let sym: Option<Vec<Id>> = if so.has_sym(soff, n) { Some((0..n).map(|k| so.byte(soff + k).1).collect()) } else { None };
        drop(so);
        let (o, off) = self.obj_mut(st, d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(s) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off..off + n].copy_from_slice(&s);
            }
            None => {
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
        }
        Ok(())
    }
    fn set(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let h = d >> 32;
        // zeroing a large, untouched object is free
        if n > 1 << 20 && matches!(v, V::C(0)) && h < GLOB {
            let (o, _) = self.obj(st, d, n)?;
            if o.data.is_empty() {
                return Ok(());
            }
        }
        let v = v.clone();
        let (o, off) = self.obj_mut(st, d, n)?;
        let n = n as usize;
        match v {
            V::C(c) => {
                for x in &mut o.data[off..off + n] {
                    *x = c as u8;
                }
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
            V::E(i) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for x in &mut o.sym[off..off + n] {
                    *x = i;
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> X<String> {
        let (o, off) = self.obj(st, p, n)?;
        Ok(String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned())
    }
    fn bt(&self, st: &State) -> String {
        let mut v = vec![short(&st.top.f.name)];
        for f in st.stack.iter().rev().take(7) {
            v.push(short(&f.f.name));
        }
        format!("[{}]", v.join(" < "))
    }

    // ----- operators -----
    fn opd(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.top.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn bin(&mut self, st: &State, op: ir::Bin, w: u32, a: &V, b: &V) -> X<V> {
        use ir::Bin::*;
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Add => x.wrapping_add(y),
                Sub => x.wrapping_sub(y),
                Mul => x.wrapping_mul(y),
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                AShr => (s64(x, w) >> y.min(w as u64 - 1)) as u64,
                UDiv | URem | SDiv | SRem => {
                    if y == 0 {
                        return Err(Stop::Viol("ub".into(), format!("division by zero {}", self.bt(st))));
                    }
                    match op {
                        UDiv => x / y,
                        URem => x % y,
                        SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                        _ => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                    }
                }
                FAdd | FSub | FMul | FDiv | FRem => {
                    if w == 64 {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        fop(op, p, q).to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (fop(op, p as f64, q as f64) as f32).to_bits() as u64
                    }
                }
            };
            return Ok(V::C(r & m));
        }
        let o = match op {
            Add => Op::Add,
            Sub => Op::Sub,
            Mul => Op::Mul,
            UDiv => Op::UDiv,
            SDiv => Op::SDiv,
            URem => Op::URem,
            SRem => Op::SRem,
            And => Op::And,
            Or => Op::Or,
            Xor => Op::Xor,
            Shl => Op::Shl,
            LShr => Op::LShr,
            AShr => Op::AShr,
            _ => return Err(Stop::Err("symbolic float".into())),
        };
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.e.bin(o, x, y);
        Ok(self.val(st, r))
    }
    fn icmp(&mut self, st: &State, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (s64(x, w), s64(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = match p {
            Pred::Eq => self.e.bin(Op::Eq, x, y),
            Pred::Ne => self.e.ne(x, y),
            Pred::Ult => self.e.bin(Op::Ult, x, y),
            Pred::Ugt => self.e.bin(Op::Ult, y, x),
            Pred::Ule => self.e.ule(x, y),
            Pred::Uge => self.e.ule(y, x),
            Pred::Slt => self.e.bin(Op::Slt, x, y),
            Pred::Sgt => self.e.bin(Op::Slt, y, x),
            Pred::Sle => {
                let e = self.e.bin(Op::Slt, y, x);
                self.e.not(e)
            }
            Pred::Sge => {
                let e = self.e.bin(Op::Slt, x, y);
                self.e.not(e)
            }
        };
        self.val(st, r)
    }
    fn cast(&mut self, st: &State, c: Cast, ft: T, tt: T, v: &V) -> X<V> {
        if let (V::A(a), Ty::Vec(_, fe), Ty::Vec(_, te)) = (v, ft, tt) {
            if c != Cast::BitCast {
                let mut r = vec![];
                for x in a.iter() {
                    r.push(self.cast(st, c, fe, te, x)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        match c {
            Cast::BitCast => {
                let x = match (v, ft) {
                    (V::A(a), Ty::Vec(_, e)) => self.join(a, e.bits()),
                    _ => v.clone(),
                };
                match tt {
                    Ty::Vec(n, e) => Ok(self.split(st, x, *n, e.bits())),
                    _ => Ok(x),
                }
            }
            Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr => {
                let (fw, tw) = (ft.bits(), tt.bits());
                match v {
                    V::C(x) => Ok(Module::mkint((*x & m64(tw)) as i128, tw)),
                    V::W(x) => Ok(Module::mkint((**x & mask(tw)) as i128, tw)),
                    V::E(i) => {
                        let r = if tw <= fw { self.e.extract(*i, 0, tw) } else { self.e.zext(*i, tw) };
                        Ok(self.val(st, r))
                    }
                    _ => Err(Stop::Err("cast".into())),
                }
            }
            Cast::SExt => {
                let (fw, tw) = (ft.bits(), tt.bits());
                match v {
                    V::C(x) => Ok(Module::mkint(s64(*x, fw) as i128, tw)),
                    V::E(i) => {
                        let r = self.e.sext(*i, tw);
                        Ok(self.val(st, r))
                    }
                    V::W(x) => Ok(Module::mkint(sx(**x, fw), tw)),
                    _ => Err(Stop::Err("cast".into())),
                }
            }
            _ => {
                let x = match v {
                    V::C(x) => *x,
                    V::W(x) => **x as u64,
                    _ => return Err(Stop::Err("symbolic float conversion".into())),
                };
                let fw = ft.bits();
                let f = |x: u64| if *ft == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let back = |d: f64| if *tt == Ty::F64 { d.to_bits() } else { (d as f32).to_bits() as u64 };
                Ok(match c {
                    Cast::FpToUi => Module::mkint(f(x) as u128 as i128, tt.bits()),
                    Cast::FpToSi => Module::mkint(f(x) as i128, tt.bits()),
                    Cast::UiToFp => V::C(back(x as f64)),
                    Cast::SiToFp => V::C(back(s64(x, fw) as f64)),
                    Cast::FpTrunc | Cast::FpExt => V::C(back(f(x))),
                    _ => unreachable!(),
                })
            }
        }
    }
    fn max_value(&mut self, st: &State, i: Id) -> X<u64> {
        let mut lo: u64 = self.e.eval(i, &st.model) as u64;
        let mut hi: u64 = !0;
        let w = self.e.w(i);
        while lo < hi {
            let mid = lo + (hi - lo) / 2 + 1;
            let k = self.e.konst(mid as u128, w);
            let c = self.e.ule(k, i);
            if let Some(u) = self.feasible(st, c)? {
                let mut m = st.model.clone();
                for (v, b) in u {
                    m[v as usize] = b;
                }
                lo = (self.e.eval(i, &m) as u64).max(mid);
            } else {
                hi = mid - 1;
            }
        }
        Ok(lo)
    }
    fn alloc_size(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::E(i) => {
                if let V::C(c) = self.val(st, *i) {
                    return Ok(c);
                }
                let m = self.max_value(st, *i)?;
                if m >= 1 << 31 {
                    return Err(Stop::Viol("alloc".into(), format!("allocation of up to {} bytes {}", m, self.bt(st))));
                }
                Ok(m)
            }
            _ => Err(Stop::Err("alloc size".into())),
        }
    }

    // ----- interpreter -----
    fn jump(&mut self, st: &mut State, b: u32) {
        let f = st.top.f;
        let phis = &f.blocks[b as usize].phis;
        if !phis.is_empty() {
            let prev = st.top.blk;
            if phis.len() == 1 {
                let (d, inc) = &phis[0];
                let o = &inc.iter().find(|x| x.0 == prev).expect("phi edge").1;
                let v = self.opd(st, o);
                st.top.regs[*d as usize] = v;
            } else {
                let vals: Vec<V> = phis.iter().map(|(_, inc)| self.opd(st, &inc.iter().find(|x| x.0 == prev).expect("phi edge").1)).collect();
                for ((d, _), v) in phis.iter().zip(vals) {
                    st.top.regs[*d as usize] = v;
                }
            }
        }
        st.top.blk = b;
        st.top.idx = 0;
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> X<()> {
        let caller = match st.stack.pop() {
            None => return Err(Stop::End("return")),
            Some(c) => c,
        };
        let fr = std::mem::replace(&mut st.top, Rc::try_unwrap(caller).unwrap_or_else(|r| (*r).clone()));
        st.smem.truncate(fr.sbase as usize);
        if let (Some(d), Some(v)) = (fr.dst, v) {
            st.top.regs[d as usize] = v;
        }
        if let Some(n) = fr.normal {
            self.jump(st, n);
        }
        Ok(())
    }
    /// run one state to its end
    pub fn run(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        let r = loop {
            n += 1;
            if let Err(s) = self.step(st) {
                break s;
            }
            if n & 0xfff == 0 && st.steps + n > self.max_steps {
                break Stop::Viol("steps".into(), format!("path exceeds {} instructions {}", self.max_steps, self.bt(st)));
            }
        };
        st.steps += n;
        self.st.steps += n;
        r
    }
    fn step(&mut self, st: &mut State) -> X<()> {
        let f = st.top.f;
        let ins = &f.blocks[st.top.blk as usize].ins[st.top.idx as usize];
        match ins {
            Ins::Bin(op, t, d, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = match t {
                    Ty::Vec(n, e) => {
                        let (p, q) = (lanes(&x), lanes(&y));
                        let mut r = vec![];
                        for i in 0..*n as usize {
                            r.push(self.bin(st, *op, e.bits(), &p[i], &q[i])?);
                        }
                        V::A(Rc::new(r))
                    }
                    _ => self.bin(st, *op, t.bits(), &x, &y)?,
                };
                st.top.regs[*d as usize] = r;
            }
            Ins::Icmp(p, t, d, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = match t {
                    Ty::Vec(n, e) => {
                        let (u, v) = (lanes(&x), lanes(&y));
                        let mut r = vec![];
                        for i in 0..*n as usize {
                            r.push(self.icmp(st, *p, e.bits(), &u[i], &v[i]));
                        }
                        V::A(Rc::new(r))
                    }
                    _ => self.icmp(st, *p, t.bits(), &x, &y),
                };
                st.top.regs[*d as usize] = r;
            }
            Ins::Fcmp(p, t, d, a, b) => {
                let (x, y) = match (self.opd(st, a), self.opd(st, b)) {
                    (V::C(x), V::C(y)) => (x, y),
                    _ => return Err(Stop::Err("symbolic fcmp".into())),
                };
                let g = |x: u64| if **t == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let (x, y) = (g(x), g(y));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "une" => un || x != y,
                    "ueq" => un || x == y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ord" => !un,
                    "uno" => un,
                    _ => return Err(Stop::Err("fcmp".into())),
                };
                st.top.regs[*d as usize] = V::C(r as u64);
            }
            Ins::FNeg(t, d, a) => {
                let x = match self.opd(st, a) {
                    V::C(x) => x,
                    _ => return Err(Stop::Err("symbolic fneg".into())),
                };
                st.top.regs[*d as usize] = V::C(if **t == Ty::F64 { x ^ (1 << 63) } else { x ^ (1 << 31) });
            }
            Ins::Cast(c, ft, tt, d, a) => {
                let x = self.opd(st, a);
                let r = self.cast(st, *c, ft, tt, &x)?;
                st.top.regs[*d as usize] = r;
            }
            Ins::Select(t, d, vc, c, a, b) => {
                let cv = self.opd(st, c);
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = if *vc {
                    let (cs, p, q) = (lanes(&cv), lanes(&x), lanes(&y));
                    let w = t.elem(0).bits();
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(self.select(st, &cs[i], &p[i], &q[i], w));
                    }
                    V::A(Rc::new(r))
                } else {
                    match self.cond(st, &cv) {
                        V::C(1) => x,
                        V::C(_) => y,
                        V::E(i) => match t {
                            Ty::Int(_) => {
                                let w = t.bits();
                                self.select(st, &V::E(i), &x, &y, w)
                            }
                            Ty::Ptr if matches!((&x, &y), (V::C(p), V::C(q)) if p >> 32 == q >> 32) => self.select(st, &V::E(i), &x, &y, 64),
                            _ => {
                                if self.branch(st, i)? {
                                    x
                                } else {
                                    y
                                }
                            }
                        },
                        _ => return Err(Stop::Err("select".into())),
                    }
                };
                st.top.regs[*d as usize] = r;
            }
            Ins::Load(t, d, a) => {
                let p = self.opd(st, a);
                let v = self.load(st, &p, t)?;
                st.top.regs[*d as usize] = v;
            }
            Ins::Store(t, v, a) => {
                let p = self.opd(st, a);
                let x = self.opd(st, v);
                self.store(st, &p, &x, t)?;
            }
            Ins::Alloca(d, sz, n) => {
                let c = self.opd(st, n);
                let c = self.concretize(st, &c, 64)?;
                let a = (STACK + st.smem.len() as u64) << 32;
                st.smem.push(Rc::new(Obj::new(sz * c)));
                st.top.regs[*d as usize] = V::C(a);
            }
            Ins::Gep(d, base, off, terms) => {
                let b = self.opd(st, base);
                let mut r = b;
                if *off != 0 {
                    r = self.bin(st, ir::Bin::Add, 64, &r, &V::C(*off as u64))?;
                }
                for (o, sc, w) in terms {
                    let x = self.opd(st, o);
                    let x = match x {
                        V::C(c) => V::C(s64(c, *w) as u64),
                        V::E(i) => {
                            let s = self.e.sext(i, 64);
                            V::E(s)
                        }
                        v => v,
                    };
                    let y = self.bin(st, ir::Bin::Mul, 64, &x, &V::C(*sc))?;
                    r = self.bin(st, ir::Bin::Add, 64, &r, &y)?;
                }
                st.top.regs[*d as usize] = r;
            }
            Ins::GepVec(_) => return Err(Stop::Err("vector gep".into())),
            Ins::ExtractValue(d, a, ix) => {
                let mut v = self.opd(st, a);
                for i in ix {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                st.top.regs[*d as usize] = v;
            }
            Ins::InsertValue(d, _t, a, v, ix) => {
                let mut ag = self.opd(st, a);
                let x = self.opd(st, v);
                insv(&mut ag, &x, ix);
                st.top.regs[*d as usize] = ag;
            }
            Ins::ExtractElt(d, _t, a, i) => {
                let ix = self.opd(st, i);
                let ix = self.concretize(st, &ix, 64)?;
                let v = lanes(&self.opd(st, a))[ix as usize].clone();
                st.top.regs[*d as usize] = v;
            }
            Ins::InsertElt(d, _t, a, v, i) => {
                let ix = self.opd(st, i);
                let ix = self.concretize(st, &ix, 64)?;
                let mut l = (*lanes(&self.opd(st, a))).clone();
                l[ix as usize] = self.opd(st, v);
                st.top.regs[*d as usize] = V::A(Rc::new(l));
            }
            Ins::Shuffle(d, _t, a, b, m) => {
                let (p, q) = (lanes(&self.opd(st, a)), lanes(&self.opd(st, b)));
                let r: Vec<V> = m
                    .iter()
                    .map(|&k| {
                        let k = k as usize;
                        if k < p.len() {
                            p[k].clone()
                        } else {
                            q[k - p.len()].clone()
                        }
                    })
                    .collect();
                st.top.regs[*d as usize] = V::A(Rc::new(r));
            }
            Ins::Rmw(op, t, d, a, v) => {
                let p = self.opd(st, a);
                let p = V::C(self.concretize(st, &p, 64)?);
                let old = self.load(st, &p, t)?;
                let x = self.opd(st, v);
                let w = t.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(st, ir::Bin::Add, w, &old, &x)?,
                    "sub" => self.bin(st, ir::Bin::Sub, w, &old, &x)?,
                    "and" => self.bin(st, ir::Bin::And, w, &old, &x)?,
                    "or" => self.bin(st, ir::Bin::Or, w, &old, &x)?,
                    "xor" => self.bin(st, ir::Bin::Xor, w, &old, &x)?,
                    "umax" | "umin" | "max" | "min" => {
                        let pr = match op.as_str() {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(st, pr, w, &old, &x);
                        self.select(st, &c, &old, &x, w)
                    }
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store(st, &p, &new, t)?;
                st.top.regs[*d as usize] = old;
            }
            Ins::CmpXchg(t, d, a, c, n) => {
                let p = self.opd(st, a);
                let p = V::C(self.concretize(st, &p, 64)?);
                let old = self.load(st, &p, t)?;
                let (x, y) = (self.opd(st, c), self.opd(st, n));
                let eq = self.icmp(st, Pred::Eq, t.bits(), &old, &x);
                let ok = match eq {
                    V::C(b) => b == 1,
                    V::E(i) => self.branch(st, i)?,
                    _ => false,
                };
                if ok {
                    self.store(st, &p, &y, t)?;
                }
                st.top.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(ok as u64)]));
            }
            Ins::Fence => {}
            Ins::Copy(d, a) => {
                let v = self.opd(st, a);
                st.top.regs[*d as usize] = v;
            }
            Ins::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Ins::CondBr(c, a, b) => {
                let cv = self.opd(st, c);
                let t = match self.cond(st, &cv) {
                    V::C(x) => x == 1,
                    V::E(i) => self.branch(st, i)?,
                    _ => return Err(Stop::Err("condbr".into())),
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Ins::Switch(t, v, def, cases) => {
                let x = self.opd(st, v);
                let w = t.bits();
                let x = match x {
                    V::E(i) => self.val(st, i),
                    v => v,
                };
                match x {
                    V::C(c) => {
                        let b = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                        self.jump(st, b);
                        return Ok(());
                    }
                    V::E(i) => {
                        // one target per distinct destination block
                        let mut dests: Vec<(u32, Id)> = vec![];
                        let mut any = self.e.fls();
                        for (k, b) in cases {
                            let kk = self.e.konst(*k as u128, w);
                            let eq = self.e.bin(Op::Eq, i, kk);
                            any = self.e.or1(any, eq);
                            match dests.iter_mut().find(|d| d.0 == *b) {
                                Some(d) => d.1 = self.e.or1(d.1, eq),
                                None => dests.push((*b, eq)),
                            }
                        }
                        let none = self.e.not(any);
                        match dests.iter_mut().find(|d| d.0 == *def) {
                            Some(d) => d.1 = self.e.or1(d.1, none),
                            None => dests.push((*def, none)),
                        }
                        let mut mine = None;
                        for (b, c) in dests {
                            if self.e.eval(c, &st.model) == 1 {
                                mine = Some((b, c));
                                continue;
                            }
                            if let Some(upd) = self.feasible(st, c)? {
                                self.st.forks += 1;
                                let mut o = st.clone();
                                o.forks += 1;
                                self.assume(&mut o, c, &upd);
                                self.jump(&mut o, b);
                                self.work.push_back(o);
                            }
                        }
                        let (b, c) = mine.ok_or_else(|| Stop::Err("switch without model target".into()))?;
                        self.assume(st, c, &[]);
                        self.jump(st, b);
                        return Ok(());
                    }
                    V::W(_) => return Err(Stop::Err("wide switch".into())),
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            Ins::Ret(_t, v) => {
                let v = v.as_ref().map(|o| self.opd(st, o));
                return self.ret(st, v);
            }
            Ins::Unreachable => return Err(Stop::Viol("unreachable".into(), format!("reached `unreachable` {}", self.bt(st)))),
            Ins::Resume | Ins::LandingPad(_) => return Err(Stop::Err("unwinding".into())),
            Ins::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction: {}", s))),
            Ins::Call { dst, ret, callee, name, args, normal, asm } => {
                if *asm {
                    st.top.idx += 1;
                    return Ok(());
                }
                let fid = match name {
                    Some(n) => *n,
                    None => {
                        let c = self.opd(st, callee);
                        let a = self.concretize(st, &c, 64)?;
                        if a < FUNC || (a - FUNC) / 16 >= self.m.fns.len() as u64 {
                            return Err(Stop::Viol("memory".into(), format!("call of invalid function pointer {:#x} {}", a, self.bt(st))));
                        }
                        ((a - FUNC) / 16) as u32
                    }
                };
                let bi = self.bis[fid as usize];
                if bi != Bi::None {
                    let mut av: Vec<V> = Vec::with_capacity(args.len());
                    for (_, o) in args {
                        av.push(self.opd(st, o));
                    }
                    let r = self.builtin(st, bi, fid, &av, args, ret)?;
                    if let (Some(d), Some(v)) = (dst, r) {
                        st.top.regs[*d as usize] = v;
                    }
                    if let Some(n) = normal {
                        self.jump(st, *n);
                        return Ok(());
                    }
                    st.top.idx += 1;
                    return Ok(());
                }
                let func = self.m.func(fid).map_err(Stop::Err)?;
                self.called[fid as usize] += 1;
                let mut regs = vec![V::C(0); func.nregs as usize];
                if args.len() < func.params.len() {
                    return Err(Stop::Err(format!("arity {}", func.name)));
                }
                for (i, p) in func.params.iter().enumerate() {
                    regs[*p as usize] = self.opd(st, &args[i].1);
                }
                if st.stack.len() > 2000 {
                    return Err(Stop::Viol("stack".into(), format!("call depth above 2000 {}", self.bt(st))));
                }
                st.top.idx += 1;
                let nf = Frame { f: func, blk: 0, idx: 0, regs, sbase: st.smem.len() as u32, dst: *dst, normal: *normal };
                let old = std::mem::replace(&mut st.top, nf);
                st.stack.push(Rc::new(old));
                if self.trace {
                    eprintln!("{}{}", " ".repeat(st.stack.len()), func.name);
                }
                return Ok(());
            }
        }
        st.top.idx += 1;
        Ok(())
    }
    fn select(&mut self, st: &State, c: &V, a: &V, b: &V, w: u32) -> V {
        match self.cond(st, c) {
            V::C(1) => a.clone(),
            V::C(_) => b.clone(),
            V::E(i) => {
                let (x, y) = (self.id(a, w), self.id(b, w));
                let r = self.e.ite(i, x, y);
                self.val(st, r)
            }
            _ => panic!("select"),
        }
    }
    fn bool_of(&mut self, v: &V, w: u32) -> Id {
        let i = self.id(v, w);
        if w == 1 {
            return i;
        }
        let z = self.e.konst(0, w);
        self.e.ne(i, z)
    }

    fn builtin(&mut self, st: &mut State, bi: Bi, fid: u32, a: &[V], args: &[(T, Opd)], ret: T) -> X<Option<V>> {
        Ok(match bi {
            Bi::Any => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                for k in 0..n {
                    let v = st.dom.len() as u32;
                    if let Some(t) = &self.fixed_tape {
                        let b = t.get(v as usize).copied().unwrap_or(0);
                        st.dom.push([0; 4]);
                        st.dom[v as usize][(b >> 6) as usize] |= 1 << (b & 63);
                        st.model.push(b);
                        st.fixed.push(true);
                        st.multi.push(false);
                        let (o, off) = self.obj_mut(st, p + k, 1)?;
                        o.data[off] = b;
                        if !o.sym.is_empty() {
                            o.sym[off] = 0;
                        }
                        continue;
                    }
                    let id = self.e.var(v);
                    self.vbytes.push(id);
                    st.dom.push(full());
                    st.multi.push(false);
                    st.fixed.push(false);
                    st.model.push(0);
                    let (o, off) = self.obj_mut(st, p + k, 1)?;
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.sym[off] = id;
                }
                None
            }
            Bi::Assume => {
                let c = self.bool_of(&a[0], args[0].0.bits());
                match self.val(st, c) {
                    V::C(1) => {}
                    V::C(_) => return Err(Stop::Infeasible),
                    _ => match self.feasible(st, c)? {
                        None => return Err(Stop::Infeasible),
                        Some(u) => {
                            // what is excluded here counts as covered
                            let nc = self.e.not(c);
                            let mut l = self.leaf(st);
                            l.push(nc);
                            self.add_leaf(l);
                            self.assume(st, c, &u)
                        }
                    },
                }
                None
            }
            Bi::Check => {
                let c = self.bool_of(&a[0], args[0].0.bits());
                self.st.checks += 1;
                let bad = match self.val(st, c) {
                    V::C(1) => None,
                    V::C(_) => Some(vec![]),
                    V::E(c) => {
                        let nc = self.e.not(c);
                        self.st.checks_smt += 1;
                        // the verdict on an assertion always comes from the solver
                        self.query(st, &[nc], &[], true)?
                    }
                    _ => None,
                };
                if let Some(u) = bad {
                    let p = self.concretize(st, &a[1], 64)?;
                    let n = self.concretize(st, &a[2], 64)?;
                    let msg = self.cstr(st, p, n)?;
                    for (v, b) in u {
                        st.model[v as usize] = b;
                    }
                    return Err(Stop::Viol("check".into(), msg));
                }
                None
            }
            Bi::Cover => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                let s = self.cstr(st, p, n)?;
                *self.st.covers.entry(s).or_insert(0) += 1;
                None
            }
            Bi::Obs => {
                st.obs.push((a[0].clone(), args[0].0.bits()));
                None
            }
            Bi::Conc => {
                let w = args[0].0.bits();
                Some(V::C(self.concretize(st, &a[0], w)?))
            }
            Bi::Param => Some(V::C(self.param)),
            Bi::End => return Err(Stop::End("end")),
            Bi::Malloc => {
                let n = self.alloc_size(st, &a[0])?;
                Some(V::C(self.alloc(st, n)))
            }
            Bi::Memalign => {
                let n = self.alloc_size(st, &a[2])?;
                let p = self.alloc(st, n);
                let ptr = self.concretize(st, &a[0], 64)?;
                let t = self.m.int(64);
                self.store(st, &V::C(ptr), &V::C(p), t)?;
                Some(V::C(0))
            }
            Bi::Calloc => {
                let x = self.bin(st, ir::Bin::Mul, 64, &a[0], &a[1])?;
                let n = self.alloc_size(st, &x)?;
                Some(V::C(self.alloc(st, n)))
            }
            Bi::Realloc => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.alloc_size(st, &a[1])?;
                let q = self.alloc(st, n);
                if p != 0 {
                    let (o, _) = self.obj(st, p, 0)?;
                    let k = o.size.min(n);
                    drop(o);
                    self.copy(st, q, p, k)?;
                    self.free(st, p)?;
                }
                Some(V::C(q))
            }
            Bi::Free => {
                let p = self.concretize(st, &a[0], 64)?;
                self.free(st, p)?;
                None
            }
            Bi::Memcpy => {
                let d = self.concretize(st, &a[0], 64)?;
                let s = self.concretize(st, &a[1], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                self.copy(st, d, s, n)?;
                Some(V::C(d))
            }
            Bi::Memset => {
                let d = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                let v = match (&a[1], args[1].0.bits()) {
                    (V::C(x), _) => V::C(*x & 0xff),
                    (V::E(i), w) if w > 8 => V::E(self.e.extract(*i, 0, 8)),
                    (v, _) => v.clone(),
                };
                self.set(st, d, &v, n)?;
                Some(V::C(d))
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.concretize(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let p = self.concretize(st, &a[0], 64)?;
                let q = self.concretize(st, &a[1], 64)?;
                let (o1, f1) = self.obj(st, p, n)?;
                let (o2, f2) = self.obj(st, q, n)?;
                let n = n as usize;
                if bi == Bi::Bcmp {
                    let mut eq = self.e.tru();
                    for k in 0..n {
                        let (x, y) = (o1.byte(f1 + k), o2.byte(f2 + k));
                        let x = if x.1 != 0 { x.1 } else { self.e.konst(x.0 as u128, 8) };
                        let y = if y.1 != 0 { y.1 } else { self.e.konst(y.0 as u128, 8) };
                        let c = self.e.bin(Op::Eq, x, y);
                        eq = self.e.and1(eq, c);
                        if self.e.cv(eq) == Some(0) {
                            break;
                        }
                    }
                    let (z, o) = (self.e.konst(0, 32), self.e.konst(1, 32));
                    let r = self.e.ite(eq, z, o);
                    return Ok(Some(self.val(st, r)));
                }
                let mut r = self.e.konst(0, 32);
                for k in (0..n).rev() {
                    let (x, y) = (o1.byte(f1 + k), o2.byte(f2 + k));
                    let x = if x.1 != 0 { x.1 } else { self.e.konst(x.0 as u128, 8) };
                    let y = if y.1 != 0 { y.1 } else { self.e.konst(y.0 as u128, 8) };
                    let c = self.e.bin(Op::Eq, x, y);
                    let lt = self.e.bin(Op::Ult, x, y);
                    let (m1, p1) = (self.e.konst(0xffff_ffff, 32), self.e.konst(1, 32));
                    let d = self.e.ite(lt, m1, p1);
                    r = self.e.ite(c, r, d);
                }
                Some(self.val(st, r))
            }
            Bi::Strlen => {
                let p = self.concretize(st, &a[0], 64)?;
                let (o, off) = self.obj(st, p, 1)?;
                let mut n = 0;
                while o.byte(off + n) != (0, 0) {
                    n += 1
                }
                Some(V::C(n as u64))
            }
            Bi::Abort => return Err(Stop::Viol("abort".into(), format!("abort {}", self.bt(st)))),
            Bi::Exit => return Err(Stop::End("exit")),
            Bi::Panic => {
                let mut loc = String::new();
                if let Some(V::C(p)) = a.last() {
                    if let Ok((o, off)) = self.obj(st, *p, 24) {
                        let r = |k: usize| u64::from_le_bytes(o.data[off + k..off + k + 8].try_into().unwrap());
                        let (fp, fl, lc) = (r(0), r(8), r(16));
                        if fl < 500 {
                            if let Ok(s) = self.cstr(st, fp, fl) {
                                loc = format!("{}:{}:{}", s, lc as u32, lc >> 32);
                            }
                        }
                    }
                }
                return Err(Stop::Viol("panic".into(), format!("panic at {} {}", loc, self.bt(st))));
            }
            Bi::Getrandom => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                self.set(st, p, &V::C(0x5a), n)?;
                Some(V::C(n))
            }
            Bi::Ret0 => Some(V::C(0)),
            Bi::Errno => {
                // a private scratch cell
                Some(V::C(self.alloc(st, 8)))
            }
            Bi::Syscall => {
                let n = self.concretize(st, &a[0], 64)?;
                match n {
                    318 => {
                        let p = self.concretize(st, &a[1], 64)?;
                        let n = self.concretize(st, &a[2], 64)?;
                        self.set(st, p, &V::C(0x5a), n)?;
                        Some(V::C(n))
                    }
                    202 => return Err(Stop::Viol("deadlock".into(), format!("futex wait/wake {}", self.bt(st)))),
                    _ => return Err(Stop::Err(format!("syscall {} {}", n, self.bt(st)))),
                }
            }
            Bi::Write => Some(a[2].clone()),
            Bi::Clock => {
                let p = self.concretize(st, &a[1], 64)?;
                // a clock that goes on by a microsecond with every look at it
                st.clock += 1000;
                let t = self.m.int(64);
                self.store(st, &V::C(p), &V::C(1000 + st.clock / 1_000_000_000), t)?;
                self.store(st, &V::C(p + 8), &V::C(st.clock % 1_000_000_000), t)?;
                Some(V::C(0))
            }
            Bi::Intrinsic => return self.intrinsic(st, fid, a, args, ret),
            Bi::None => unreachable!(),
        })
    }

    fn intrinsic(&mut self, st: &mut State, fid: u32, a: &[V], args: &[(T, Opd)], ret: T) -> X<Option<V>> {
        let name = self.m.fns[fid as usize].name.clone();
        let n = &name[5..];
        let base: &str = {
            // strip type suffixes
            n
        };
        let st_ = |p: &str| base.starts_with(p);
        if st_("lifetime.") || st_("assume") || st_("experimental.noalias") || st_("dbg.") || st_("invariant.") || st_("prefetch") || st_("stackrestore") {
            return Ok(None);
        }
        if st_("invariant") {
            return Ok(Some(V::C(0)));
        }
        if st_("memcpy.") || st_("memmove.") {
            return self.builtin(st, Bi::Memcpy, fid, a, args, ret).map(|_| None);
        }
        if st_("memset.") {
            return self.builtin(st, Bi::Memset, fid, a, args, ret).map(|_| None);
        }
        if st_("trap") || st_("ubsantrap") || st_("debugtrap") {
            return Err(Stop::Viol("abort".into(), format!("trap {}", self.bt(st))));
        }
        if st_("threadlocal.address") || st_("expect.") || st_("ptr.annotation") || st_("launder") || st_("strip") || st_("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if st_("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if st_("stacksave") {
            return Ok(Some(V::C(0)));
        }
        if st_("x86.sse2.pause") {
            return Ok(None);
        }
        if st_("ptrmask") {
            return self.bin(st, ir::Bin::And, 64, &a[0], &a[1]).map(Some);
        }
        if st_("objectsize") {
            return Ok(Some(V::C(m64(ret.bits()))));
        }
        if st_("load.relative") {
            let p = self.bin(st, ir::Bin::Add, 64, &a[0], &a[1])?;
            let t = self.m.int(32);
            let v = self.load(st, &p, t)?;
            let c = self.concretize(st, &v, 32)?;
            return self.bin(st, ir::Bin::Add, 64, &a[0], &V::C(s64(c, 32) as u64)).map(Some);
        }
        // vector reductions
        if st_("vector.reduce.") {
            let op = base["vector.reduce.".len()..].split('.').next().unwrap();
            let (l, ew) = match (&a[0], args[0].0) {
                (V::A(l), Ty::Vec(_, e)) => (l.clone(), e.bits()),
                _ => return Err(Stop::Err("reduce".into())),
            };
            let mut r = l[0].clone();
            for x in &l[1..] {
                r = match op {
                    "add" => self.bin(st, ir::Bin::Add, ew, &r, x)?,
                    "mul" => self.bin(st, ir::Bin::Mul, ew, &r, x)?,
                    "and" => self.bin(st, ir::Bin::And, ew, &r, x)?,
                    "or" => self.bin(st, ir::Bin::Or, ew, &r, x)?,
                    "xor" => self.bin(st, ir::Bin::Xor, ew, &r, x)?,
                    "umax" | "umin" | "smax" | "smin" => {
                        let p = match op {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "smax" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(st, p, ew, &r, x);
                        self.select(st, &c, &r, x, ew)
                    }
                    _ => return Err(Stop::Err(format!("reduce {}", op))),
                };
            }
            return Ok(Some(r));
        }
        // element-wise on vectors
        if let Ty::Vec(cnt, _) = ret {
            let mut out = vec![];
            for i in 0..*cnt as usize {
                let mut av = vec![];
                for (k, x) in a.iter().enumerate() {
                    av.push(match (x, args[k].0) {
                        (V::A(l), Ty::Vec(..)) => l[i].clone(),
                        (v, _) => v.clone(),
                    });
                }
                let w = ret.elem(0).bits();
                out.push(self.scalar_intr(st, base, &av, w, ret)?);
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        let w = match args.first() {
            Some((t, _)) => match t {
                Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => t.bits(),
                _ => 64,
            },
            None => 64,
        };
        // rotation of a symbolic word: used by hash functions; fork on the values
        if (st_("fshl") || st_("fshr")) && w == 64 {
            let same = match (&a[0], &a[1]) {
                (V::E(x), V::E(y)) => x == y,
                _ => false,
            };
            if same {
                let c = self.concretize(st, &a[0], 64)?;
                let av = [V::C(c), V::C(c), a[2].clone()];
                return self.scalar_intr(st, base, &av, w, ret).map(Some);
            }
        }
        self.scalar_intr(st, base, a, w, ret).map(Some)
    }
    fn scalar_intr(&mut self, st: &mut State, n: &str, a: &[V], w: u32, ret: T) -> X<V> {
        let p: Vec<&str> = n.split('.').collect();
        match p[0] {
            "umin" | "umax" | "smin" | "smax" => {
                let pr = match p[0] {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(st, pr, w, &a[0], &a[1]);
                Ok(self.select(st, &c, &a[0], &a[1], w))
            }
            "ucmp" | "scmp" => {
                let (l, g) = if p[0] == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(st, l, w, &a[0], &a[1]);
                let gt = self.icmp(st, g, w, &a[0], &a[1]);
                let rw = ret.bits();
                let x = self.select(st, &gt, &V::C(1), &V::C(0), rw);
                Ok(self.select(st, &lt, &V::C(m64(rw)), &x, rw))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &p[0][1..] {
                    "add" => ir::Bin::Add,
                    "sub" => ir::Bin::Sub,
                    _ => ir::Bin::Mul,
                };
                let signed = p[0].starts_with('s');
                // extended arithmetic
                let ew = if op == ir::Bin::Mul { 2 * w } else { w + 1 };
                if ew > 128 {
                    return Err(Stop::Err("wide overflow op".into()));
                }
                let (r, ov) = if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    if signed {
                        let (x, y) = (s64(*x, w) as i128, s64(*y, w) as i128);
                        let r = match op {
                            ir::Bin::Add => x + y,
                            ir::Bin::Sub => x - y,
                            _ => x * y,
                        };
                        let t = r as u64 & m64(w);
                        (V::C(t), V::C((s64(t, w) as i128 != r) as u64))
                    } else {
                        let (x, y) = (*x as i128, *y as i128);
                        let (t, ov) = match op {
                            ir::Bin::Add => ((x + y) as u64 & m64(w), x + y > m64(w) as i128),
                            ir::Bin::Sub => ((x - y) as u64 & m64(w), x < y),
                            _ => {
                                let r = (x as u128) * (y as u128);
                                (r as u64 & m64(w), r > m64(w) as u128)
                            }
                        };
                        (V::C(t), V::C(ov as u64))
                    }
                } else {
                    let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                    let o = match op {
                        ir::Bin::Add => Op::Add,
                        ir::Bin::Sub => Op::Sub,
                        _ => Op::Mul,
                    };
                    let r = self.e.bin(o, x, y);
                    let ov = if !signed && op == ir::Bin::Sub {
                        self.e.bin(Op::Ult, x, y)
                    } else if !signed && op == ir::Bin::Add {
                        self.e.bin(Op::Ult, r, x)
                    } else {
                        let (ex, ey) = if signed { (self.e.sext(x, ew), self.e.sext(y, ew)) } else { (self.e.zext(x, ew), self.e.zext(y, ew)) };
                        let er = self.e.bin(o, ex, ey);
                        let back = if signed { self.e.sext(r, ew) } else { self.e.zext(r, ew) };
                        self.e.ne(er, back)
                    };
                    (self.val(st, r), self.val(st, ov))
                };
                if p[1] == "with" {
                    return Ok(V::A(Rc::new(vec![r, ov])));
                }
                // saturating
                let sat = if signed {
                    let neg = self.icmp(st, Pred::Slt, w, &a[0], &V::C(0));
                    self.select(st, &neg, &V::C(1u64 << (w - 1)), &V::C(m64(w) >> 1), w)
                } else if op == ir::Bin::Sub {
                    V::C(0)
                } else {
                    V::C(m64(w))
                };
                Ok(self.select(st, &ov, &sat, &r, w))
            }
            "fshl" | "fshr" => {
                let s = self.bin(st, ir::Bin::URem, w, &a[2], &V::C(w as u64))?;
                let s = self.concretize(st, &s, w)?;
                let s = if p[0] == "fshl" { s } else { (w as u64 - s) % w as u64 };
                if s == 0 {
                    return Ok(if p[0] == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let hi = self.bin(st, ir::Bin::Shl, w, &a[0], &V::C(s))?;
                let lo = self.bin(st, ir::Bin::LShr, w, &a[1], &V::C(w as u64 - s))?;
                self.bin(st, ir::Bin::Or, w, &hi, &lo)
            }
            "bswap" => {
                let i = self.id(&a[0], w);
                let mut r: Option<Id> = None;
                for k in 0..w / 8 {
                    let b = self.e.extract(i, k * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(x) => self.e.concat(x, b),
                    });
                }
                Ok(self.val(st, r.unwrap()))
            }
            "bitreverse" => {
                let i = self.id(&a[0], w);
                let mut r: Option<Id> = None;
                for k in 0..w {
                    let b = self.e.extract(i, k, 1);
                    r = Some(match r {
                        None => b,
                        Some(x) => self.e.concat(x, b),
                    });
                }
                Ok(self.val(st, r.unwrap()))
            }
            "ctpop" => {
                if let V::C(x) = &a[0] {
                    return Ok(V::C(x.count_ones() as u64));
                }
                let i = self.id(&a[0], w);
                let mut r = self.e.konst(0, w);
                for k in 0..w {
                    let b = self.e.extract(i, k, 1);
                    let z = self.e.zext(b, w);
                    r = self.e.bin(Op::Add, r, z);
                }
                Ok(self.val(st, r))
            }
            "cttz" | "ctlz" => {
                if let V::C(x) = &a[0] {
                    let r = if *x == 0 {
                        w
                    } else if p[0] == "cttz" {
                        x.trailing_zeros()
                    } else {
                        x.leading_zeros() - (64 - w)
                    };
                    return Ok(V::C(r as u64));
                }
                let i = self.id(&a[0], w);
                let mut r = self.e.konst(w as u128, w);
                for k in 0..w {
                    // last assignment wins: lowest bit for cttz, highest for ctlz
                    let bit = if p[0] == "cttz" { w - 1 - k } else { k };
                    let b = self.e.extract(i, bit, 1);
                    let v = if p[0] == "cttz" { bit } else { w - 1 - bit };
                    let kv = self.e.konst(v as u128, w);
                    r = self.e.ite(b, kv, r);
                }
                Ok(self.val(st, r))
            }
            "abs" => {
                let neg = self.icmp(st, Pred::Slt, w, &a[0], &V::C(0));
                let m = self.bin(st, ir::Bin::Sub, w, &V::C(0), &a[0])?;
                Ok(self.select(st, &neg, &m, &a[0], w))
            }
            _ => Err(Stop::Err(format!("intrinsic llvm.{} {}", n, self.bt(st)))),
        }
    }

    // ----- driver -----
    fn tape(&self, st: &State) -> Vec<u8> {
        st.model.clone()
    }
    fn record(&mut self, st: &State, end: &str) {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let k = self.st.samples.len();
        let slot = if k < self.nsamples {
            self.st.samples.push((vec![], vec![], String::new()));
            k
        } else {
            let r = (self.rng % (self.st.paths + 1)) as usize;
            if r >= self.nsamples {
                return;
            }
            r
        };
        let mut obs = vec![];
        for (v, _w) in &st.obs {
            obs.push(match v {
                V::C(c) => *c,
                V::E(i) => self.e.eval(*i, &st.model) as u64,
                V::W(x) => **x as u64,
                _ => 0,
            });
        }
        self.st.samples[slot] = (self.tape(st), obs, end.to_string());
    }
    /// the condition under which the state is reached
    pub fn leaf(&mut self, st: &State) -> Vec<Id> {
        let mut l = vec![];
        if self.leaves.len() > LEAVES {
            return l;
        }
        for v in 0..st.dom.len() {
            if st.dom[v] != full() {
                let x = self.domx(v as u32, &st.dom[v]);
                l.push(x);
            }
        }
        l.extend(st.pc.iter().copied());
        l
    }
    fn add_leaf(&mut self, l: Vec<Id>) {
        if self.leaves.len() <= LEAVES {
            self.leaves.push(l);
        }
    }
    /// Ask the solver whether the explored paths, with `more`, cover every input that reaches `root`.
    pub fn close(&mut self, root: &[Id], more: Vec<Vec<Id>>, paths: u64) {
        let mut ls = std::mem::take(&mut self.leaves);
        if self.fixed_tape.is_some() || self.st.violation.is_some() || self.st.error.is_some() || self.st.incomplete.is_some() {
            return;
        }
        ls.extend(more);
        if ls.len() > LEAVES || self.close_ms == 0 {
            self.st.open += 1;
            return;
        }
        let t = Instant::now();
        let r = self.s.covered(&self.e, root, &ls, self.close_ms.min(5000));
        self.close_ms = self.close_ms.saturating_sub(t.elapsed().as_millis() as u32);
        match r {
            Some(true) => {
                self.st.closed += 1;
                self.st.closed_paths += paths;
            }
            Some(false) => self.st.error = Some("the explored paths do not cover all inputs".into()),
            None => self.st.open += 1,
        }
    }
    /// explore until the work list is empty, `limit` states are pending (breadth first), or time is up
    pub fn explore(&mut self, bfs_limit: Option<usize>, deadline: Instant, stop: &dyn Fn() -> bool) {
        let mut n = 0u32;
        loop {
            if let Some(l) = bfs_limit {
                if self.work.len() >= l {
                    return;
                }
            }
            n += 1;
            if n % 16 == 0 && stop() {
                return;
            }
            if Instant::now() > deadline {
                self.st.incomplete = Some("time".into());
                return;
            }
            let mut s = match if bfs_limit.is_some() { self.work.pop_front() } else { self.work.pop_back() } {
                Some(s) => s,
                None => return,
            };
            let r = self.run(&mut s);
            self.st.max_tape = self.st.max_tape.max(s.model.len() as u64);
            match r {
                Stop::End(k) => {
                    self.st.paths += 1;
                    self.record(&s, k);
                    let l = self.leaf(&s);
                    self.add_leaf(l);
                }
                Stop::Infeasible => {
                    self.st.infeasible += 1;
                    let l = self.leaf(&s);
                    self.add_leaf(l);
                }
                Stop::Viol(k, d) => {
                    self.st.paths += 1;
                    self.st.violation = Some((k, d, self.tape(&s)));
                    return;
                }
                Stop::Err(e) => {
                    self.st.error = Some(format!("{} {}", e, self.bt(&s)));
                    return;
                }
            }
        }
    }
}

fn fop(op: ir::Bin, a: f64, b: f64) -> f64 {
    match op {
        ir::Bin::FAdd => a + b,
        ir::Bin::FSub => a - b,
        ir::Bin::FMul => a * b,
        ir::Bin::FDiv => a / b,
        _ => a % b,
    }
}
fn lanes(v: &V) -> Rc<Vec<V>> {
    match v {
        V::A(a) => a.clone(),
        _ => panic!("lanes of scalar"),
    }
}
fn insv(ag: &mut V, x: &V, ix: &[u32]) {
    if ix.is_empty() {
        *ag = x.clone();
        return;
    }
    if let V::A(a) = ag {
        insv(&mut Rc::make_mut(a)[ix[0] as usize], x, &ix[1..]);
    }
}
fn classify(n: &str, body: bool) -> Bi {
    match n {
        "rsym_any" => return Bi::Any,
        "rsym_assume" => return Bi::Assume,
        "rsym_check" => return Bi::Check,
        "rsym_cover" => return Bi::Cover,
        "rsym_obs" => return Bi::Obs,
        "rsym_conc" => return Bi::Conc,
        "rsym_param" => return Bi::Param,
        "rsym_end" => return Bi::End,
        "malloc" => return Bi::Malloc,
        "calloc" => return Bi::Calloc,
        "realloc" => return Bi::Realloc,
        "free" => return Bi::Free,
        "posix_memalign" => return Bi::Memalign,
        "memcmp" => return Bi::Memcmp,
        "bcmp" => return Bi::Bcmp,
        "memcpy" | "memmove" => return Bi::Memcpy,
        "memset" => return Bi::Memset,
        "strlen" => return Bi::Strlen,
        "abort" => return Bi::Abort,
        "exit" | "_exit" => return Bi::Exit,
        "getrandom" => return Bi::Getrandom,
        "__cxa_thread_atexit_impl" | "getenv" | "pthread_setspecific" | "pthread_key_create" => return Bi::Ret0,
        "gettid" | "pthread_self" | "sched_yield" => return Bi::Ret0,
        "__errno_location" => return Bi::Errno,
        "syscall" => return Bi::Syscall,
        "write" => return Bi::Write,
        "clock_gettime" if !body => return Bi::Clock,
        _ => {}
    }
    if n.starts_with("llvm.") {
        return Bi::Intrinsic;
    }
    if body && (n.contains("4core9panicking") || (n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("panic_with_hook")))) {
        return Bi::Panic;
    }
    // every hash is 0: keys are told apart by comparison only, so symbolic keys do not go through SipHash
    if body && CONST_HASH.load(std::sync::atomic::Ordering::Relaxed) && n.contains("4hash11BuildHasher8hash_one") {
        return Bi::Ret0;
    }
    Bi::None
}
pub static CONST_HASH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// readable tail of a v0-mangled name
pub fn short(n: &str) -> String {
    // collect <len><ident> runs
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k >= 2 && j + k <= b.len() && n[j..j + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                out.push(&n[j..j + k]);
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    let t = out.len();
    if t == 0 {
        return n.chars().take(40).collect();
    }
    out[..t.min(6)].join("::")
}
