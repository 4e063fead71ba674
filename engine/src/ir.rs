//! Text LLVM IR front end: indexes a module, parses function bodies on demand.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, T),
    Vec(u32, T),
    Struct(Vec<T>, bool),
    Other,
}
pub type T = &'static Ty;

fn leak(t: Ty) -> T {
    Box::leak(Box::new(t))
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match *n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Void => 0,
            Ty::Other => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> T {
        match self {
            Ty::Struct(f, _) => f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Runtime value: concrete word (masked to its width), symbolic expression,
/// wide concrete (65..128 bits), or aggregate/vector.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(u32),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    PtrToInt,
    IntToPtr,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Debug)]
pub enum Ins {
    Bin(Bin, T, u32, Opd, Opd),
    Icmp(Pred, T, u32, Opd, Opd),
    Fcmp(String, T, u32, Opd, Opd),
    Cast(Cast, T, T, u32, Opd),
    Select(T, u32, bool, Opd, Opd, Opd),
    Load(T, u32, Opd),
    Store(T, Opd, Opd),
    Alloca(u32, u64, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u64, u32)>),
    GepVec(u32),
    Call { dst: Option<u32>, ret: T, callee: Opd, name: Option<u32>, args: Vec<(T, Opd)>, normal: Option<u32>, asm: bool },
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, T, Opd, Opd, Vec<u32>),
    ExtractElt(u32, T, Opd, Opd),
    InsertElt(u32, T, Opd, Opd, Opd),
    Shuffle(u32, T, Opd, Opd, Vec<i64>),
    Rmw(String, T, u32, Opd, Opd),
    CmpXchg(T, u32, Opd, Opd, Opd),
    Fence,
    Copy(u32, Opd),
    FNeg(T, u32, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(T, Opd, u32, Vec<(u64, u32)>),
    Ret(T, Option<Opd>),
    Unreachable,
    Resume,
    LandingPad(u32),
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnDef {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range in text
    pub parsed: Option<&'static Func>,
}
pub struct Global {
    pub name: String,
    pub line: (usize, usize), // rest of the line after '='
    pub parsed: Option<(T, V2, bool)>,
}
/// initializer: flattened bytes
#[derive(Clone)]
pub struct V2 {
    pub bytes: Vec<u8>,
}

pub const GLOB: u64 = 0x1000_0000;
pub const STACK: u64 = 0x2000_0000;
pub const FUNC: u64 = 0x3000_0000 << 32;

pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnDef>,
    pub fn_ix: HashMap<String, u32>,
    pub globs: Vec<Global>,
    pub glob_ix: HashMap<String, u32>,
    pub named: HashMap<String, T>,
    pub named_src: HashMap<String, &'static str>,
    pub alias: HashMap<String, &'static str>,
    t_ptr: T,
    t_i: HashMap<u32, T>,
}

pub type R<X> = Result<X, String>;

// ---------- lexer ----------
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),  // keyword, type, number
    Loc(&'a str), // %x
    Glb(&'a str), // @x
    Meta,         // !...
    Str(&'a str), // "..." or c"..."
    Attr,         // #n
    P(char),
}

pub fn lex<'a>(s: &'a str, out: &mut Vec<Tok<'a>>) -> R<()> {
    let b = s.as_bytes();
    let mut i = 0;
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let st = i + 1;
                if b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1
                    }
                    let n = &s[st + 1..j];
                    out.push(if c == b'%' { Tok::Loc(n) } else { Tok::Glb(n) });
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && isid(b[j]) {
                        j += 1
                    }
                    let n = &s[st..j];
                    out.push(if c == b'%' { Tok::Loc(n) } else { Tok::Glb(n) });
                    i = j;
                }
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1
                }
                out.push(Tok::Meta);
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1
                }
                out.push(Tok::Attr);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(&s[i + 2..j]));
                i = j + 1;
            }
            _ if isid(c) => {
                let mut j = i;
                while j < b.len() && isid(b[j]) {
                    j += 1
                }
                // "..." varargs
                out.push(Tok::Id(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    Ok(())
}

struct P<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok<'a>> {
        let t = self.t.get(self.i).cloned().ok_or_else(|| "unexpected end".to_string())?;
        self.i += 1;
        Ok(t)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 4).min(self.t.len())]))
        }
    }
    fn id(&self) -> Option<&'a str> {
        match self.peek() {
            Some(Tok::Id(s)) => Some(s),
            _ => None,
        }
    }
    fn eat_id(&mut self, k: &str) -> bool {
        if self.id() == Some(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        if self.is('(') {
            let mut d = 0;
            while let Some(t) = self.peek() {
                match t {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => is_type_kw(s),
            Some(Tok::Loc(_)) => true,
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            _ => false,
        }
    }
}
fn is_type_kw(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "token")
        || (s.len() > 1 && s.as_bytes()[0] == b'i' && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_const_kw(s: &str) -> bool {
    matches!(
        s,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast"
            | "trunc" | "add" | "sub" | "xor" | "splat" | "blockaddress" | "asm" | "addrspacecast" | "ptrtoaddr" | "no_cfi" | "dso_local_equivalent"
    ) || s.as_bytes()[0].is_ascii_digit()
        || s.as_bytes()[0] == b'-'
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// local names of a function
struct Names<'a> {
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
}
impl<'a> Names<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: &'static str = Box::leak(String::from_utf8_lossy(&std::fs::read(path).map_err(|e| e.to_string())?).into_owned().into_boxed_str());
        let mut m = Module {
            text,
            fns: vec![],
            fn_ix: HashMap::new(),
            globs: vec![],
            glob_ix: HashMap::new(),
            named: HashMap::new(),
            named_src: HashMap::new(),
            alias: HashMap::new(),
            t_ptr: leak(Ty::Ptr),
            t_i: HashMap::new(),
        };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let sym = |rest: &'static str| -> (String, usize) {
            // rest starts after '@' or '%'
            if rest.as_bytes()[0] == b'"' {
                let e = rest[1..].find('"').unwrap();
                (rest[1..1 + e].to_string(), e + 2)
            } else {
                let e = rest.find(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c))).unwrap_or(rest.len());
                (rest[..e].to_string(), e)
            }
        };
        while pos < bytes.len() {
            let eol = bytes[pos..].iter().position(|&c| c == b'\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..eol];
            match bytes.get(pos) {
                Some(b'@') => {
                    let (n, l) = sym(&text[pos + 1..]);
                    let rest = &line[1 + l..];
                    if let Some(r) = rest.strip_prefix(" = ") {
                        if r.split(' ').any(|w| w == "alias") && r.find(" alias ").map(|x| x < 80).unwrap_or(false) {
                            m.alias.insert(n, r);
                        } else {
                            let st = eol - r.len();
                            m.glob_ix.insert(n.clone(), m.globs.len() as u32);
                            m.globs.push(Global { name: n, line: (st, eol), parsed: None });
                        }
                    }
                }
                Some(b'%') => {
                    let (n, l) = sym(&text[pos + 1..]);
                    if let Some(r) = line[1 + l..].strip_prefix(" = type ") {
                        m.named_src.insert(n, r);
                    }
                }
                Some(b'd') if line.starts_with("define ") || line.starts_with("declare ") => {
                    let at = line.find('@').unwrap();
                    let (n, _) = sym(&text[pos + at + 1..]);
                    let body = if line.starts_with("define") {
                        let e = text[pos..].find("\n}\n").map(|x| pos + x + 1).unwrap_or(bytes.len());
                        Some((pos, e))
                    } else {
                        None
                    };
                    m.fn_ix.insert(n.clone(), m.fns.len() as u32);
                    m.fns.push(FnDef { name: n, body, parsed: None });
                    if let Some((_, e)) = body {
                        pos = e;
                        continue;
                    }
                }
                _ => {}
            }
            pos = eol + 1;
        }
        Ok(m)
    }
    pub fn int(&mut self, n: u32) -> T {
        *self.t_i.entry(n).or_insert_with(|| leak(Ty::Int(n)))
    }
    fn ty(&mut self, p: &mut P) -> R<T> {
        let t = match p.next()? {
            Tok::Id(s) => match s {
                "void" => leak(Ty::Void),
                "ptr" => {
                    if p.eat_id("addrspace") {
                        p.skip_parens();
                    }
                    self.t_ptr
                }
                "float" => leak(Ty::F32),
                "double" => leak(Ty::F64),
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" => leak(Ty::Other),
                _ if is_type_kw(s) => {
                    let n = s[1..].parse().map_err(|_| s.to_string())?;
                    self.int(n)
                }
                _ => return Err(format!("type {}", s)),
            },
            Tok::Loc(n) => {
                if let Some(t) = self.named.get(n) {
                    t
                } else {
                    let src = self.named_src.get(n).ok_or(format!("named type {}", n))?;
                    let mut q = P { t: vec![], i: 0 };
                    lex(src, &mut q.t)?;
                    let t = self.ty(&mut q)?;
                    self.named.insert(n.to_string(), t);
                    t
                }
            }
            Tok::P('[') => {
                let n = self.num(p)?;
                p.eat_id("x");
                let t = self.ty(p)?;
                p.expect(']')?;
                leak(Ty::Arr(n as u64, t))
            }
            Tok::P('<') => {
                if p.is('{') {
                    p.i += 1;
                    let f = self.ty_list(p)?;
                    p.expect('>')?;
                    leak(Ty::Struct(f, true))
                } else {
                    let n = self.num(p)?;
                    p.eat_id("x");
                    let t = self.ty(p)?;
                    p.expect('>')?;
                    leak(Ty::Vec(n as u32, t))
                }
            }
            Tok::P('{') => {
                let f = self.ty_list(p)?;
                leak(Ty::Struct(f, false))
            }
            t => return Err(format!("type token {:?}", t)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, p: &mut P) -> R<Vec<T>> {
        let mut f = vec![];
        while !p.eat('}') {
            f.push(self.ty(p)?);
            p.eat(',');
        }
        Ok(f)
    }
    fn num(&mut self, p: &mut P) -> R<i128> {
        match p.next()? {
            Tok::Id(s) => s.parse::<i128>().map_err(|_| format!("num {}", s)),
            t => Err(format!("num {:?}", t)),
        }
    }
    pub fn mkint(v: i128, w: u32) -> V {
        if w > 64 {
            V::W(Rc::new(v as u128 & crate::expr::mask(w)))
        } else {
            V::C((v as u128 & crate::expr::mask(w)) as u64)
        }
    }
    pub fn zero(&self, t: T) -> V {
        match t {
            Ty::Int(n) => Self::mkint(0, *n),
            Ty::Ptr | Ty::F32 | Ty::F64 => V::C(0),
            Ty::Arr(n, e) => V::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Vec(n, e) => V::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => V::C(0),
        }
    }
    pub fn sym_addr(&mut self, n: &str) -> R<u64> {
        if let Some(&f) = self.fn_ix.get(n) {
            return Ok(FUNC + (f as u64) * 16);
        }
        if let Some(&g) = self.glob_ix.get(n) {
            return Ok((GLOB + g as u64) << 32);
        }
        if let Some(a) = self.alias.get(n).copied() {
            let mut p = P { t: vec![], i: 0 };
            lex(a, &mut p.t)?;
            let mut last = None;
            for t in &p.t {
                if let Tok::Glb(x) = t {
                    last = Some(x.to_string())
                }
            }
            return self.sym_addr(&last.ok_or("alias")?);
        }
        Err(format!("unknown symbol @{}", n))
    }
    /// constant or register operand of type t
    fn val<'a>(&mut self, p: &mut P<'a>, t: T, nm: &mut Names<'a>) -> R<Opd> {
        if let Some(Tok::Loc(n)) = p.peek() {
            let n = *n;
            p.i += 1;
            return Ok(Opd::R(nm.reg(n)));
        }
        Ok(Opd::K(self.konst(p, t)?))
    }
    fn konst(&mut self, p: &mut P, t: T) -> R<V> {
        match p.next()? {
            Tok::Glb(n) => Ok(V::C(self.sym_addr(n)?)),
            Tok::Str(s) => {
                let b = unescape(s);
                Ok(V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect())))
            }
            Tok::P('{') => self.agg(p, '}'),
            Tok::P('[') => self.agg(p, ']'),
            Tok::P('<') => {
                if p.eat('{') {
                    let r = self.agg(p, '}')?;
                    p.expect('>')?;
                    Ok(r)
                } else {
                    self.agg(p, '>')
                }
            }
            Tok::Id(s) => match s {
                "true" => Ok(V::C(1)),
                "false" => Ok(V::C(0)),
                "null" | "none" => Ok(V::C(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
                "getelementptr" => {
                    while p.id().is_some() {
                        p.i += 1; // inbounds nuw nusw inrange
                        p.skip_parens_if_kw();
                    }
                    p.expect('(')?;
                    let ety = self.ty(p)?;
                    p.expect(',')?;
                    let pt = self.ty(p)?;
                    let base = self.konst(p, pt)?;
                    let mut addr = match base {
                        V::C(a) => a,
                        _ => return Err("gep const base".into()),
                    };
                    let mut cur = ety;
                    let mut first = true;
                    while p.eat(',') {
                        let it = self.ty(p)?;
                        let ix = match self.konst(p, it)? {
                            V::C(x) => crate::expr::sx(x as u128, it.bits()) as i64,
                            _ => return Err("gep const ix".into()),
                        };
                        if first {
                            addr = addr.wrapping_add((ix as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            addr = addr.wrapping_add(match cur {
                                Ty::Struct(..) => cur.field_off(ix as usize),
                                _ => (ix as u64).wrapping_mul(cur.elem(0).size()),
                            });
                            cur = match cur {
                                Ty::Struct(..) => cur.elem(ix as usize),
                                _ => cur.elem(0),
                            };
                        }
                    }
                    p.expect(')')?;
                    Ok(V::C(addr))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    p.expect('(')?;
                    let ft = self.ty(p)?;
                    let v = self.konst(p, ft)?;
                    p.eat_id("to");
                    let tt = self.ty(p)?;
                    p.expect(')')?;
                    match v {
                        V::C(x) => Ok(Self::mkint(x as i128, tt.bits())),
                        v => Ok(v),
                    }
                }
                "add" | "sub" | "xor" => {
                    while p.id().is_some() {
                        p.i += 1;
                    }
                    p.expect('(')?;
                    let t1 = self.ty(p)?;
                    let a = self.konst(p, t1)?;
                    p.expect(',')?;
                    let t2 = self.ty(p)?;
                    let b = self.konst(p, t2)?;
                    p.expect(')')?;
                    match (a, b) {
                        (V::C(a), V::C(b)) => Ok(Self::mkint(
                            match s {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            } as i128,
                            t1.bits(),
                        )),
                        _ => Err("const binop".into()),
                    }
                }
                "splat" => {
                    p.expect('(')?;
                    let et = self.ty(p)?;
                    let v = self.konst(p, et)?;
                    p.expect(')')?;
                    Ok(V::A(Rc::new(vec![v; t.count()])))
                }
                "asm" => Ok(V::C(0)),
                _ => match t {
                    Ty::F64 | Ty::F32 => {
                        let d = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| s.to_string())?)
                        } else {
                            // 1.000000e+00 : '+' splits tokens
                            let mut txt = s.to_string();
                            if txt.ends_with('e') && p.eat('+') {
                                if let Tok::Id(x) = p.next()? {
                                    txt.push_str(x);
                                }
                            }
                            txt.parse::<f64>().map_err(|_| txt)?
                        };
                        Ok(V::C(if *t == Ty::F64 { d.to_bits() } else { (d as f32).to_bits() as u64 }))
                    }
                    Ty::Other => Ok(V::C(0)),
                    _ => {
                        let n = s.parse::<i128>().map_err(|_| format!("const {} : {:?}", s, t))?;
                        Ok(Self::mkint(n, t.bits()))
                    }
                },
            },
            Tok::Meta => {
                Ok(V::C(0))
            }
            t => Err(format!("const token {:?}", t)),
        }
    }
    fn agg(&mut self, p: &mut P, end: char) -> R<V> {
        let mut v = vec![];
        while !p.eat(end) {
            let t = self.ty(p)?;
            v.push(self.konst(p, t)?);
            p.eat(',');
        }
        Ok(V::A(Rc::new(v)))
    }
    pub fn bytes_of(&self, v: &V, t: T, out: &mut [u8]) {
        match t {
            Ty::Arr(n, e) => {
                let s = e.size() as usize;
                if let V::A(a) = v {
                    for i in 0..*n as usize {
                        self.bytes_of(&a[i], e, &mut out[i * s..]);
                    }
                }
            }
            Ty::Vec(n, e) => {
                let s = e.size() as usize;
                if let V::A(a) = v {
                    for i in 0..*n as usize {
                        self.bytes_of(&a[i], e, &mut out[i * s..]);
                    }
                }
            }
            Ty::Struct(f, _) => {
                if let V::A(a) = v {
                    for i in 0..f.len() {
                        self.bytes_of(&a[i], f[i], &mut out[t.field_off(i) as usize..]);
                    }
                }
            }
            _ => {
                let x: u128 = match v {
                    V::C(c) => *c as u128,
                    V::W(w) => **w,
                    _ => 0,
                };
                let n = ((t.bits() + 7) / 8) as usize;
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }
    /// (type, initial bytes, is_const)
    pub fn global(&mut self, g: u32) -> R<(T, Vec<u8>, bool)> {
        let (a, b) = self.globs[g as usize].line;
        let mut p = P { t: vec![], i: 0 };
        lex(&self.text[a..b], &mut p.t)?;
        let mut ext = false;
        let konst;
        loop {
            match p.next()? {
                Tok::Id("global") => {
                    konst = false;
                    break;
                }
                Tok::Id("constant") => {
                    konst = true;
                    break;
                }
                Tok::Id("external") | Tok::Id("extern_weak") => ext = true,
                _ => {}
            }
        }
        let t = self.ty(&mut p)?;
        let sz = t.size() as usize;
        let mut out = vec![0u8; sz];
        if !ext {
            // large zero arrays
            if p.id() == Some("zeroinitializer") || p.id() == Some("undef") {
                return Ok((t, if sz > 1 << 20 { vec![] } else { out }, konst));
            }
            let v = self.konst(&mut p, t)?;
            self.bytes_of(&v, t, &mut out);
        }
        Ok((t, out, konst))
    }
    pub fn func(&mut self, f: u32) -> R<&'static Func> {
        if let Some(p) = self.fns[f as usize].parsed {
            return Ok(p);
        }
        let (a, b) = self.fns[f as usize].body.ok_or("no body")?;
        let txt: &'static str = self.text;
        let r = self.parse_fn(f, &txt[a..b]).map_err(|e| format!("parsing {}: {}", self.fns[f as usize].name, e))?;
        let r: &'static Func = Box::leak(Box::new(r));
        self.fns[f as usize].parsed = Some(r);
        Ok(r)
    }
    fn parse_fn(&mut self, fid: u32, txt: &'static str) -> R<Func> {
        let mut lines = txt.lines();
        let hdr = lines.next().unwrap();
        let mut nm = Names { regs: HashMap::new(), blocks: HashMap::new() };
        let mut p = P { t: vec![], i: 0 };
        lex(hdr, &mut p.t)?;
        while !matches!(p.peek(), Some(Tok::Glb(_))) {
            p.i += 1;
        }
        p.i += 1;
        p.expect('(')?;
        let mut params = vec![];
        let mut k = 0;
        while !p.eat(')') {
            if p.eat('.') {
                continue;
            }
            if p.id() == Some("...") {
                p.i += 1;
                continue;
            }
            let _t = self.ty(&mut p)?;
            // skip attrs to Loc or ',' or ')'
            loop {
                match p.peek() {
                    Some(Tok::Loc(n)) => {
                        let n = *n;
                        p.i += 1;
                        params.push(nm.reg(n));
                        break;
                    }
                    Some(Tok::P(',')) | Some(Tok::P(')')) => {
                        // unnamed parameter: numbered
                        let s: &'static str = Box::leak(k.to_string().into_boxed_str());
                        params.push(nm.reg(s));
                        break;
                    }
                    Some(Tok::P('(')) => p.skip_parens(),
                    None => return Err("param".into()),
                    _ => p.i += 1,
                }
            }
            k += 1;
            p.eat(',');
        }
        // logical lines
        let mut raw: Vec<(bool, String)> = vec![]; // (is_label, text)
        for l in lines {
            if l.is_empty() || l.starts_with(';') || l.starts_with('}') {
                continue;
            }
            if l.starts_with("  ") {
                let c2 = l.as_bytes().get(2).copied().unwrap_or(b' ');
                if c2 == b';' {
                    continue;
                }
                if c2 == b'#' {
                    continue;
                }
                if c2 != b' ' && c2 != b']' {
                    raw.push((false, l.to_string()));
                } else {
                    let last = raw.last_mut().ok_or("cont")?;
                    last.1.push(' ');
                    last.1.push_str(l.trim());
                }
            } else {
                raw.push((true, l.to_string()));
            }
        }
        let raw: &'static Vec<(bool, String)> = Box::leak(Box::new(raw));
        // labels
        let mut nb = 0u32;
        let first_is_label = raw.first().map(|x| x.0).unwrap_or(false);
        if !first_is_label {
            let s: &'static str = Box::leak(k.to_string().into_boxed_str());
            nm.blocks.insert(s, 0);
            nb = 1;
        }
        for (il, l) in raw.iter() {
            if *il {
                let name: &'static str = if let Some(r) = l.strip_prefix('"') {
                    &r[..r.find('"').unwrap()]
                } else {
                    &l[..l.find(':').ok_or("label")?]
                };
                nm.blocks.insert(name, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        if !first_is_label {
            blocks.push(Block::default());
        }
        for (il, l) in raw.iter() {
            if *il {
                blocks.push(Block { name: l.chars().take(60).collect(), ..Default::default() });
                continue;
            }
            let mut p = P { t: vec![], i: 0 };
            lex(l, &mut p.t)?;
            let blk = blocks.last_mut().unwrap();
            match self.ins(&mut p, &mut nm, blk) {
                Ok(()) => {}
                Err(e) => blk.ins.push(Ins::Unsupported(format!("{}: {}", e, l.trim()))),
            }
        }
        Ok(Func { id: fid, name: self.fns[fid as usize].name.clone(), params, nregs: nm.regs.len() as u32, blocks })
    }
    fn label<'a>(&mut self, p: &mut P<'a>, nm: &Names<'a>) -> R<u32> {
        p.eat_id("label");
        match p.next()? {
            Tok::Loc(n) => nm.blocks.get(n).copied().ok_or(format!("block {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn ins<'a>(&mut self, p: &mut P<'a>, nm: &mut Names<'a>, blk: &mut Block) -> R<()> {
        let mut dst = None;
        if let Some(Tok::Loc(n)) = p.peek() {
            let n = *n;
            p.i += 1;
            p.expect('=')?;
            dst = Some(nm.reg(n));
        }
        while matches!(p.id(), Some("tail") | Some("musttail") | Some("notail")) {
            p.i += 1;
        }
        let op = match p.next()? {
            Tok::Id(s) => s,
            t => return Err(format!("op {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let skip_flags = |p: &mut P| {
            while let Some(s) = p.id() {
                if is_type_kw(s) {
                    break;
                }
                p.i += 1;
                p.skip_parens();
            }
        };
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub"
            | "fmul" | "fdiv" | "frem" => {
                skip_flags(p);
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let b = self.val(p, t, nm)?;
                let o = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                Ins::Bin(o, t, d, a, b)
            }
            "icmp" => {
                p.eat_id("samesign");
                let pr = match p.id().unwrap_or("") {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("pred {}", x)),
                };
                p.i += 1;
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let b = self.val(p, t, nm)?;
                Ins::Icmp(pr, t, d, a, b)
            }
            "fcmp" => {
                let mut pr = String::new();
                while let Some(s) = p.id() {
                    if is_type_kw(s) {
                        break;
                    }
                    pr = s.to_string();
                    p.i += 1;
                }
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let b = self.val(p, t, nm)?;
                Ins::Fcmp(pr, t, d, a, b)
            }
            "fneg" => {
                skip_flags(p);
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                Ins::FNeg(t, d, a)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext"
            | "addrspacecast" | "ptrtoaddr" => {
                skip_flags(p);
                let ft = self.ty(p)?;
                let a = self.val(p, ft, nm)?;
                p.eat_id("to");
                let tt = self.ty(p)?;
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" | "addrspacecast" => Cast::BitCast,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    _ => Cast::FpExt,
                };
                Ins::Cast(c, ft, tt, d, a)
            }
            "select" => {
                skip_flags(p);
                let ct = self.ty(p)?;
                let c = self.val(p, ct, nm)?;
                p.expect(',')?;
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let t2 = self.ty(p)?;
                let b = self.val(p, t2, nm)?;
                Ins::Select(t, d, matches!(ct, Ty::Vec(..)), c, a, b)
            }
            "load" => {
                p.eat_id("atomic");
                p.eat_id("volatile");
                let t = self.ty(p)?;
                p.expect(',')?;
                let pt = self.ty(p)?;
                let a = self.val(p, pt, nm)?;
                Ins::Load(t, d, a)
            }
            "store" => {
                p.eat_id("atomic");
                p.eat_id("volatile");
                let t = self.ty(p)?;
                let v = self.val(p, t, nm)?;
                p.expect(',')?;
                let pt = self.ty(p)?;
                let a = self.val(p, pt, nm)?;
                Ins::Store(t, v, a)
            }
            "alloca" => {
                p.eat_id("inalloca");
                let t = self.ty(p)?;
                let mut cnt = Opd::K(V::C(1));
                if p.eat(',') {
                    if p.at_type() {
                        let ct = self.ty(p)?;
                        cnt = self.val(p, ct, nm)?;
                    }
                }
                Ins::Alloca(d, t.size(), cnt)
            }
            "getelementptr" => {
                while let Some(s) = p.id() {
                    if is_type_kw(s) {
                        break;
                    }
                    p.i += 1;
                    p.skip_parens();
                }
                let ety = self.ty(p)?;
                p.expect(',')?;
                let pt = self.ty(p)?;
                if matches!(pt, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let base = self.val(p, pt, nm)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = ety;
                let mut first = true;
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    let it = self.ty(p)?;
                    let ix = self.val(p, it, nm)?;
                    let w = it.bits();
                    if first {
                        first = false;
                        match ix {
                            Opd::K(V::C(x)) => off = off.wrapping_add((crate::expr::sx(x as u128, w) as i64).wrapping_mul(cur.size() as i64)),
                            o => terms.push((o, cur.size(), w)),
                        }
                    } else {
                        match cur {
                            Ty::Struct(..) => {
                                let x = match ix {
                                    Opd::K(V::C(x)) => x,
                                    _ => return Err("struct gep".into()),
                                };
                                off += cur.field_off(x as usize) as i64;
                                cur = cur.elem(x as usize);
                            }
                            _ => {
                                let e = cur.elem(0);
                                match ix {
                                    Opd::K(V::C(x)) => {
                                        off = off.wrapping_add((crate::expr::sx(x as u128, w) as i64).wrapping_mul(e.size() as i64))
                                    }
                                    o => terms.push((o, e.size(), w)),
                                }
                                cur = e;
                            }
                        }
                    }
                }
                Ins::Gep(d, base, off, terms)
            }
            "extractvalue" => {
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                let mut ix = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    ix.push(self.num(p)? as u32);
                }
                Ins::ExtractValue(d, a, ix)
            }
            "insertvalue" => {
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let vt = self.ty(p)?;
                let v = self.val(p, vt, nm)?;
                let mut ix = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    ix.push(self.num(p)? as u32);
                }
                Ins::InsertValue(d, t, a, v, ix)
            }
            "extractelement" => {
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let it = self.ty(p)?;
                let ix = self.val(p, it, nm)?;
                Ins::ExtractElt(d, t, a, ix)
            }
            "insertelement" => {
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let et = self.ty(p)?;
                let v = self.val(p, et, nm)?;
                p.expect(',')?;
                let it = self.ty(p)?;
                let ix = self.val(p, it, nm)?;
                Ins::InsertElt(d, t, a, v, ix)
            }
            "shufflevector" => {
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                p.expect(',')?;
                let t2 = self.ty(p)?;
                let b = self.val(p, t2, nm)?;
                p.expect(',')?;
                let mt = self.ty(p)?;
                let m = match self.val(p, mt, nm)? {
                    Opd::K(V::A(v)) => v.iter().map(|x| if let V::C(c) = x { *c as i64 } else { 0 }).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle(d, t, a, b, m)
            }
            "atomicrmw" => {
                p.eat_id("volatile");
                let o = match p.next()? {
                    Tok::Id(s) => s.to_string(),
                    t => return Err(format!("{:?}", t)),
                };
                let pt = self.ty(p)?;
                let a = self.val(p, pt, nm)?;
                p.expect(',')?;
                let t = self.ty(p)?;
                let v = self.val(p, t, nm)?;
                Ins::Rmw(o, t, d, a, v)
            }
            "cmpxchg" => {
                p.eat_id("weak");
                p.eat_id("volatile");
                let pt = self.ty(p)?;
                let a = self.val(p, pt, nm)?;
                p.expect(',')?;
                let t = self.ty(p)?;
                let c = self.val(p, t, nm)?;
                p.expect(',')?;
                let t2 = self.ty(p)?;
                let n = self.val(p, t2, nm)?;
                Ins::CmpXchg(t, d, a, c, n)
            }
            "fence" => Ins::Fence,
            "freeze" => {
                let t = self.ty(p)?;
                let a = self.val(p, t, nm)?;
                Ins::Copy(d, a)
            }
            "phi" => {
                skip_flags(p);
                let t = self.ty(p)?;
                let mut inc = vec![];
                loop {
                    if !p.eat('[') {
                        break;
                    }
                    let v = self.val(p, t, nm)?;
                    p.expect(',')?;
                    let b = self.label(p, nm)?;
                    p.expect(']')?;
                    inc.push((b, v));
                    if !p.eat(',') {
                        break;
                    }
                }
                blk.phis.push((d, inc));
                return Ok(());
            }
            "br" => {
                if p.id() == Some("label") {
                    Ins::Br(self.label(p, nm)?)
                } else {
                    let t = self.ty(p)?;
                    let c = self.val(p, t, nm)?;
                    p.expect(',')?;
                    let a = self.label(p, nm)?;
                    p.expect(',')?;
                    let b = self.label(p, nm)?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty(p)?;
                let v = self.val(p, t, nm)?;
                p.expect(',')?;
                let def = self.label(p, nm)?;
                p.expect('[')?;
                let mut cases = vec![];
                while !p.eat(']') {
                    let ct = self.ty(p)?;
                    let c = match self.konst(p, ct)? {
                        V::C(c) => c,
                        _ => return Err("switch case".into()),
                    };
                    p.expect(',')?;
                    cases.push((c, self.label(p, nm)?));
                }
                Ins::Switch(t, v, def, cases)
            }
            "ret" => {
                let t = self.ty(p)?;
                if *t == Ty::Void {
                    Ins::Ret(t, None)
                } else {
                    Ins::Ret(t, Some(self.val(p, t, nm)?))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Resume,
            "landingpad" => Ins::LandingPad(d),
            "call" | "invoke" => {
                // flags, cc, return attributes
                while let Some(s) = p.id() {
                    if is_type_kw(s) {
                        break;
                    }
                    p.i += 1;
                    if s == "align" || s == "cc" {
                        if !p.is('(') {
                            p.i += 1;
                        }
                    }
                    p.skip_parens();
                }
                let mut ret = self.ty(p)?;
                if p.is('(') {
                    // function type for varargs
                    p.skip_parens();
                }
                let mut asm = false;
                let mut name = None;
                let callee = match p.peek() {
                    Some(Tok::Id("asm")) => {
                        asm = true;
                        while !matches!(p.peek(), Some(Tok::Str(_))) {
                            p.i += 1;
                        }
                        p.i += 1;
                        p.expect(',')?;
                        p.i += 1;
                        Opd::K(V::C(0))
                    }
                    Some(Tok::Glb(n)) => {
                        let n = *n;
                        p.i += 1;
                        if let Some(&f) = self.fn_ix.get(n) {
                            name = Some(f);
                            Opd::K(V::C(FUNC + f as u64 * 16))
                        } else {
                            let a = self.sym_addr(n)?;
                            if a >= FUNC {
                                name = Some(((a - FUNC) / 16) as u32);
                            }
                            Opd::K(V::C(a))
                        }
                    }
                    _ => self.val(p, self.t_ptr, nm)?,
                };
                if *ret == Ty::Other {
                    ret = leak(Ty::Void);
                }
                p.expect('(')?;
                let mut args = vec![];
                while !p.eat(')') {
                    let t = self.ty(p)?;
                    if *t == Ty::Other {
                        // metadata argument: skip to , or )
                        let mut dep = 0;
                        while let Some(x) = p.peek() {
                            match x {
                                Tok::P('(') => dep += 1,
                                Tok::P(')') if dep == 0 => break,
                                Tok::P(')') => dep -= 1,
                                Tok::P(',') if dep == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((t, Opd::K(V::C(0))));
                        p.eat(',');
                        continue;
                    }
                    while let Some(s) = p.id() {
                        if is_const_kw(s) {
                            break;
                        }
                        p.i += 1;
                        if s == "align" && !p.is('(') {
                            p.i += 1;
                        }
                        p.skip_parens();
                    }
                    // "attr"="x" strings
                    let v = self.val(p, t, nm)?;
                    args.push((t, v));
                    p.eat(',');
                }
                let mut normal = None;
                if op == "invoke" {
                    while p.peek().is_some() && p.id() != Some("to") {
                        p.i += 1;
                    }
                    p.i += 1;
                    normal = Some(self.label(p, nm)?);
                }
                Ins::Call { dst, ret, callee, name, args, normal, asm }
            }
            _ => return Err(format!("opcode {}", op)),
        };
        blk.ins.push(i);
        Ok(())
    }
}
impl<'a> P<'a> {
    fn skip_parens_if_kw(&mut self) {
        // "inrange(-16, 16)" — parens directly after the keyword "inrange"
        if let Some(Tok::Id("inrange")) = self.t.get(self.i - 1) {
            self.skip_parens();
        }
    }
}
