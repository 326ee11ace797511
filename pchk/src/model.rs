//! The reference model of scene parsing: a character automaton (lexer) feeding
//! a push-down automaton over tokens (grammar).  Deliberately boring, written
//! from the documented behaviour of the scene format, one step per symbol.
//!
//! The model's output for an accepted text is the Debug rendering that the
//! parsed scene must have (see `node.rs` for how it is compared).

use crate::Float;
use fw::{hash_bytes, mix, Local};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct P {
    pub r: usize,
    pub c: usize,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Id(String),
    /// value; `soft`: an implementation may deliver it as a float instead
    Int(i64, bool),
    Flt(Float),
    Str(String),
    LB,
    RB,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Tok {
    pub pos: P,
    pub ty: Ty,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct LexErr {
    /// start of the offending token
    pub start: P,
    /// no position after this one may be cited
    pub at: P,
}

pub struct Lexed {
    pub toks: Result<Vec<Tok>, LexErr>,
    /// some literal may legitimately be refused (integer beyond 64 bits)
    pub may_reject: bool,
    /// some literal has a fractional exponent: its value is checked with a tolerance
    pub approx: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
enum L {
    Gap,
    Comment,
    Str,
    Esc,
    Id,
    // numbers: mantissa
    Sign,
    Dot0, // a point, no digit yet
    Int,
    Frac,
    // exponent
    Exp,
    ExpSign,
    ExpDot0,
    ExpInt,
    ExpFrac,
    Dead,
}

/// Class of a character: what the automaton can distinguish.
fn class(c: char) -> u8 {
    match c {
        '#' => 0,
        '"' => 1,
        '[' => 2,
        ']' => 3,
        '-' => 4,
        '+' => 5,
        '.' => 6,
        '\\' => 7,
        '\n' => 8,
        'e' => 9,
        'n' => 10,
        c if c.is_ascii_digit() => 11,
        c if c.is_numeric() => 12,
        c if c.is_whitespace() => 13,
        c if c.is_alphabetic() => 14,
        _ => 15,
    }
}

struct Num {
    neg: bool,
    int: String,
    dot: bool,
    bad: bool,
    exp: Option<(bool, String, bool, bool)>,
}
impl Num {
    fn new() -> Num {
        Num { neg: false, int: String::new(), dot: false, bad: false, exp: None }
    }
}

/// Decide the value of a complete numeral. None: malformed.
fn number(n: &Num, may_reject: &mut bool, approx: &mut bool) -> Option<Ty> {
    if n.bad || !n.int.bytes().any(|b| b.is_ascii_digit()) {
        return None;
    }
    let m = format!("{}{}", if n.neg { "-" } else { "" }, n.int);
    match &n.exp {
        None => {
            if n.dot {
                Some(Ty::Flt(m.parse().unwrap()))
            } else {
                match m.parse::<i64>() {
                    Ok(i) => Some(Ty::Int(i, false)),
                    Err(_) => {
                        *may_reject = true;
                        Some(Ty::Flt(m.parse().unwrap()))
                    }
                }
            }
        }
        Some((eneg, e, edot, ebad)) => {
            if *ebad || !e.bytes().any(|b| b.is_ascii_digit()) {
                return None;
            }
            if *edot {
                *approx = true;
                let mant: f64 = m.parse().unwrap();
                let ev: f64 = format!("{}{}", if *eneg { "-" } else { "" }, e).parse().unwrap();
                return Some(Ty::Flt((mant * 10f64.powf(ev)) as Float));
            }
            let etxt = e.trim_start_matches('0');
            // the nearest representable value of m * 10^e
            let fv: Float = format!("{}e{}{}", m, if *eneg { "-" } else { "" }, e).parse().unwrap();
            if etxt.len() > 18 {
                *may_reject = true; // exponent itself beyond 64 bits
            }
            let ezero = etxt.is_empty();
            if !n.dot && m.parse::<i64>().is_err() {
                *may_reject = true;
            }
            if !n.dot && (!*eneg || ezero) {
                if let Ok(mv) = m.parse::<i64>() {
                    if mv == 0 {
                        return Some(Ty::Int(0, false));
                    }
                    if etxt.len() <= 2 {
                        let k = etxt.parse::<u32>().unwrap_or(0);
                        if let Some(v) = 10i64.checked_pow(k).and_then(|p| mv.checked_mul(p)) {
                            return Some(Ty::Int(v, false));
                        }
                    }
                }
            }
            Some(Ty::Flt(fv))
        }
    }
}

pub fn lex(text: &str, loc: &mut Local) -> Lexed {
    lex_opt(text, Some(loc))
}

pub fn lex_opt(text: &str, mut loc: Option<&mut Local>) -> Lexed {
    let mut st = L::Gap;
    let mut toks: Vec<Tok> = vec![];
    let mut p = P { r: 1, c: 1 };
    let mut start = p;
    let mut buf = String::new();
    let mut num = Num::new();
    let mut may_reject = false;
    let mut approx = false;
    let mut err: Option<LexErr> = None;
    let mut it = text.chars().peekable();
    // one extra round with c = None: end of input
    loop {
        let mut c = it.next();
        if c == Some('\r') && it.peek() == Some(&'\n') {
            c = it.next();
        }
        let st0 = st;
        // A character can end a token and be looked at again in state Gap.
        'again: loop {
            macro_rules! die {
                () => {{
                    err = Some(LexErr { start, at: p });
                    st = L::Dead;
                    break 'again;
                }};
            }
            macro_rules! endnum {
                () => {{
                    match number(&num, &mut may_reject, &mut approx) {
                        Some(t) => toks.push(Tok { pos: start, ty: t }),
                        None => die!(),
                    }
                    st = L::Gap;
                    continue 'again;
                }};
            }
            match st {
                L::Dead => break,
                L::Gap => {
                    start = p;
                    match c {
                        None => break,
                        Some('#') => st = L::Comment,
                        Some('"') => {
                            buf.clear();
                            st = L::Str
                        }
                        Some('[') => toks.push(Tok { pos: p, ty: Ty::LB }),
                        Some(']') => toks.push(Tok { pos: p, ty: Ty::RB }),
                        Some(ch @ ('-' | '+')) => {
                            num = Num::new();
                            num.neg = ch == '-';
                            st = L::Sign
                        }
                        Some('.') => {
                            num = Num::new();
                            num.dot = true;
                            num.int.push('.');
                            st = L::Dot0
                        }
                        Some(ch) if ch.is_numeric() => {
                            num = Num::new();
                            num.bad = !ch.is_ascii_digit();
                            num.int.push(ch);
                            st = L::Int
                        }
                        Some(ch) if ch.is_whitespace() => (),
                        Some(ch) if ch.is_alphabetic() => {
                            buf.clear();
                            buf.push(ch);
                            st = L::Id
                        }
                        Some(_) => die!(),
                    }
                    break;
                }
                L::Comment => {
                    if c == Some('\n') {
                        st = L::Gap
                    }
                    break;
                }
                L::Str => match c {
                    None => die!(),
                    Some('"') => {
                        toks.push(Tok { pos: start, ty: Ty::Str(buf.clone()) });
                        st = L::Gap;
                        break;
                    }
                    Some('\\') => {
                        st = L::Esc;
                        break;
                    }
                    Some(ch) => {
                        buf.push(ch);
                        break;
                    }
                },
                L::Esc => match c {
                    None => die!(),
                    Some(ch) => {
                        buf.push(if ch == 'n' { '\n' } else { ch });
                        st = L::Str;
                        break;
                    }
                },
                L::Id => match c {
                    Some(ch) if ch.is_alphanumeric() => {
                        buf.push(ch);
                        break;
                    }
                    _ => {
                        toks.push(Tok { pos: start, ty: Ty::Id(buf.clone()) });
                        st = L::Gap;
                    }
                },
                L::Sign | L::Dot0 | L::Int | L::Frac => match c {
                    Some(ch) if ch.is_numeric() => {
                        num.int.push(ch);
                        num.bad |= !ch.is_ascii_digit();
                        st = if num.dot { L::Frac } else { L::Int };
                        break;
                    }
                    Some('.') => {
                        if num.dot {
                            die!()
                        }
                        num.dot = true;
                        st = if num.int.is_empty() { L::Dot0 } else { L::Frac };
                        num.int.push('.');
                        break;
                    }
                    Some('e') => {
                        num.exp = Some((false, String::new(), false, false));
                        st = L::Exp;
                        break;
                    }
                    _ => endnum!(),
                },
                L::Exp | L::ExpSign | L::ExpDot0 | L::ExpInt | L::ExpFrac => {
                    let e = num.exp.as_mut().unwrap();
                    match c {
                        Some(ch @ ('-' | '+')) if st == L::Exp => {
                            e.0 = ch == '-';
                            st = L::ExpSign;
                            break;
                        }
                        Some(ch) if ch.is_numeric() => {
                            e.1.push(ch);
                            e.3 |= !ch.is_ascii_digit();
                            st = if e.2 { L::ExpFrac } else { L::ExpInt };
                            break;
                        }
                        Some('.') => {
                            if e.2 {
                                die!()
                            }
                            st = if e.1.is_empty() { L::ExpDot0 } else { L::ExpFrac };
                            e.1.push('.');
                            e.2 = true;
                            break;
                        }
                        // an exponent cannot itself have an exponent
                        Some('e') => die!(),
                        _ => endnum!(),
                    }
                }
            }
        }
        if let Some(l) = loc.as_deref_mut() {
            l.state(0x1000 + st as u64);
            l.tran(0x1000 + st0 as u64, c.map(|c| class(c) as u64).unwrap_or(99), 0x1000 + st as u64);
        }
        match c {
            None => break,
            Some('\n') => p = P { r: p.r + 1, c: 1 },
            Some(_) => p.c += 1,
        }
        if st == L::Dead {
            break;
        }
    }
    Lexed {
        toks: match err {
            Some(e) => Err(e),
            None => Ok(toks),
        },
        may_reject,
        approx,
    }
}

// ------------------------------------------------------------------ grammar

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Lex(LexErr),
    /// token index of the directive's first token, and of the offending token
    Tok(usize, usize),
    Eof,
}

#[derive(Clone, Debug)]
pub enum Expect {
    /// Debug rendering of the scene
    Ok(String),
    Err(Fault),
}

pub struct Judged {
    pub expect: Expect,
    pub toks: Vec<Tok>,
    pub may_reject: bool,
    pub approx: bool,
}

pub const NUMERIC: &[(&str, usize)] = &[
    ("Translate", 3),
    ("Scale", 3),
    ("Rotate", 4),
    ("LookAt", 9),
    ("Transform", 9),
    ("ConcatTransform", 9),
    ("TransformTimes", 2),
];
pub const OPTIONS: &[&str] = &["Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator"];
pub const LEAVES: &[&str] = &["Material", "Shape", "LightSource", "AreaLightSource"];
pub const BLOCKS: &[&str] = &["Attribute", "Transform", "World"];
pub const PTYPES: &[&str] = &[
    "integer", "float", "point2", "vector2", "bool", "string", "rgb", "xyz", "spectrum", "blackbody", "texture",
];
/// order and names of the collections a parameter set renders
const SETS: [&str; 11] = [
    "bools", "ints", "floats", "point2fs", "vector2fs", "point3fs", "vector3fs", "normal3fs", "spectra", "strings",
    "textures",
];

fn pos(p: P) -> String {
    format!("Pos {{ r: {}, c: {} }}", p.r, p.c)
}

#[derive(Clone)]
struct ParamSet([Vec<String>; 11]);
impl ParamSet {
    fn new() -> ParamSet {
        ParamSet(Default::default())
    }
    fn render(&self) -> String {
        let mut s = String::from("ParamSet { ");
        for (i, n) in SETS.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            s.push_str(n);
            s.push_str(": [");
            s.push_str(&self.0[i].join(", "));
            s.push(']');
        }
        s.push_str(" }");
        s
    }
}

/// What is being collected for the directive under way.
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Numeric(usize),
    CoordSys(usize), // 0 CoordinateSystem, 1 CoordSysTransform
    Active,
    Option(usize),
    Include,
    Leaf(usize),
    Texture,
}

#[derive(Clone, PartialEq, Debug)]
enum C {
    /// a directive (or block end) is expected
    Dir,
    /// collecting required strings
    Strs(K, usize),
    Ident,
    Floats(usize),
    /// parameter header or anything that ends the directive
    Params,
    /// value of parameter of this type
    Val(usize),
    List(usize),
    Done,
    Dead,
}

pub struct Pda {
    ctl: C,
    kind: K,
    /// open blocks: (block kind, rendered position, rendered children)
    stack: Vec<(usize, String, Vec<String>)>,
    pre: Vec<String>,
    world: String,
    strs: Vec<String>,
    nums: Vec<Float>,
    items: Vec<Tok>,
    params: ParamSet,
    pname: String,
    ppos: P,
    dstart: usize,
    dpos: P,
    fault: Fault,
    soft_int_used: bool,
}

impl Pda {
    pub fn new() -> Pda {
        Pda {
            ctl: C::Dir,
            kind: K::Active,
            stack: vec![],
            pre: vec![],
            world: String::new(),
            strs: vec![],
            nums: vec![],
            items: vec![],
            params: ParamSet::new(),
            pname: String::new(),
            ppos: P { r: 0, c: 0 },
            dstart: 0,
            dpos: P { r: 0, c: 0 },
            fault: Fault::Eof,
            soft_int_used: false,
        }
    }

    pub fn dead(&self) -> bool {
        self.ctl == C::Dead
    }
    pub fn done(&self) -> bool {
        self.ctl == C::Done
    }
    /// names of the block ends that close everything now open, innermost first
    pub fn closers(&self) -> Vec<String> {
        self.stack.iter().rev().map(|(k, _, _)| format!("{}End", BLOCKS[*k])).collect()
    }

    /// canonical control state: everything that decides what may follow
    pub fn state(&self) -> u64 {
        let mut h = match &self.ctl {
            C::Dir => 1,
            C::Strs(k, n) => mix(2, hash_bytes(format!("{:?}{}", k, n - self.strs.len()).as_bytes())),
            C::Ident => 3,
            C::Floats(i) => mix(4, (*i as u64) << 8 | self.nums.len().min(12) as u64),
            C::Params => 5,
            C::Val(t) => mix(6, *t as u64),
            C::List(t) => mix(7, (*t as u64) << 8 | self.items.len().min(8) as u64),
            C::Done => 8,
            C::Dead => 9,
        };
        for (k, _, _) in &self.stack {
            h = mix(h, 0x77 + *k as u64);
        }
        h
    }

    fn die(&mut self, i: usize) {
        self.fault = Fault::Tok(self.dstart, i);
        self.ctl = C::Dead;
    }

    fn emit(&mut self, s: String) {
        match self.stack.last_mut() {
            Some((_, _, ch)) => ch.push(s),
            None => self.pre.push(s),
        }
        self.ctl = C::Dir;
    }

    fn finish_directive(&mut self) {
        let dp = pos(self.dpos);
        let s = match self.kind {
            K::Option(i) => format!(
                "{}(DirectiveStruct {{ ty: {:?}, pos: {}, param_set: {} }})",
                OPTIONS[i],
                self.strs[0],
                dp,
                self.params.render()
            ),
            K::Leaf(i) => format!(
                "{}(DirectiveStruct {{ ty: {:?}, pos: {}, param_set: {} }})",
                LEAVES[i],
                self.strs[0],
                dp,
                self.params.render()
            ),
            K::Texture => format!(
                "Texture(TextureStruct {{ name: {:?}, ty: {:?}, class: {:?}, pos: {}, param_set: {} }})",
                self.strs[0],
                self.strs[1],
                self.strs[2],
                dp,
                self.params.render()
            ),
            K::Include => format!("Include({}, {:?})", dp, std::path::PathBuf::from(&self.strs[0])),
            K::CoordSys(0) => format!("CoordinateSystem({}, {:?})", dp, self.strs[0]),
            K::CoordSys(_) => format!("CoordSysTransform({}, {:?})", dp, self.strs[0]),
            K::Active => format!("ActiveTransform({}, {:?})", dp, self.strs[0]),
            K::Numeric(i) => {
                let n = &self.nums;
                let v3 = |k: usize| format!("Vector3 {{ x: {:?}, y: {:?}, z: {:?} }}", n[k], n[k + 1], n[k + 2]);
                let m3 = || {
                    format!(
                        "Matrix3 {{ mat: [[{:?}, {:?}, {:?}], [{:?}, {:?}, {:?}], [{:?}, {:?}, {:?}]] }}",
                        n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8]
                    )
                };
                match NUMERIC[i].0 {
                    d @ ("Translate" | "Scale") => format!("{}({}, {})", d, dp, v3(0)),
                    "Rotate" => format!("Rotate({}, {:?}, {})", dp, n[0], v3(1)),
                    "TransformTimes" => format!("TransformTimes({}, {:?}, {:?})", dp, n[0], n[1]),
                    d => format!("{}({}, {})", d, dp, m3()),
                }
            }
        };
        self.emit(s);
    }

    fn num(t: &Tok) -> Option<Float> {
        match t.ty {
            Ty::Int(i, _) => Some(i as Float),
            Ty::Flt(f) => Some(f),
            _ => None,
        }
    }

    /// may this token be an element of a value of this parameter type?
    fn fits(&self, ty: usize, t: &Tok) -> bool {
        match PTYPES[ty] {
            "integer" => matches!(t.ty, Ty::Int(..)),
            "bool" => matches!(&t.ty, Ty::Str(s) if s == "true" || s == "false"),
            "string" | "texture" => matches!(t.ty, Ty::Str(_)),
            _ => Self::num(t).is_some(),
        }
    }

    /// a complete value: store the parameter. false: wrong length.
    fn store(&mut self, ty: usize) -> bool {
        let items = std::mem::take(&mut self.items);
        let f: Vec<Float> = items.iter().filter_map(Self::num).collect();
        let (set, vals): (usize, Vec<String>) = match PTYPES[ty] {
            "integer" => (
                1,
                items
                    .iter()
                    .map(|t| match t.ty {
                        Ty::Int(i, soft) => {
                            self.soft_int_used |= soft;
                            i.to_string()
                        }
                        _ => unreachable!(),
                    })
                    .collect(),
            ),
            "float" => (2, f.iter().map(|x| format!("{:?}", x)).collect()),
            t @ ("point2" | "vector2") => {
                if f.len() % 2 != 0 {
                    return false;
                }
                let (set, nm) = if t == "point2" { (3, "Point2") } else { (4, "Vector2") };
                (set, f.chunks(2).map(|p| format!("{} {{ x: {:?}, y: {:?} }}", nm, p[0], p[1])).collect())
            }
            "bool" => (
                0,
                items
                    .iter()
                    .map(|t| match &t.ty {
                        Ty::Str(s) => s.clone(),
                        _ => unreachable!(),
                    })
                    .collect(),
            ),
            t @ ("string" | "texture") => (
                if t == "string" { 9 } else { 10 },
                items
                    .iter()
                    .map(|t| match &t.ty {
                        Ty::Str(s) => format!("{:?}", s),
                        _ => unreachable!(),
                    })
                    .collect(),
            ),
            t @ ("rgb" | "xyz") => {
                if f.len() != 3 {
                    return false;
                }
                (8, vec![format!("{}({:?}, {:?}, {:?})", if t == "rgb" { "Rgb" } else { "Xyz" }, f[0], f[1], f[2])])
            }
            "blackbody" => {
                if f.len() != 2 {
                    return false;
                }
                (8, vec![format!("Blackbody({:?}, {:?})", f[0], f[1])])
            }
            "spectrum" => {
                if let Some(Tok { ty: Ty::Str(s), .. }) = items.first() {
                    (8, vec![format!("File({:?})", std::path::PathBuf::from(s))])
                } else {
                    if f.len() % 2 != 0 {
                        return false;
                    }
                    let ps: Vec<String> = f.chunks(2).map(|p| format!("({:?}, {:?})", p[0], p[1])).collect();
                    (8, vec![format!("Spectrum([{}])", ps.join(", "))])
                }
            }
            _ => unreachable!(),
        };
        self.params.0[set].push(format!(
            "Param {{ name: {:?}, pos: {}, values: [{}] }}",
            self.pname,
            pos(self.ppos),
            vals.join(", ")
        ));
        self.ctl = C::Params;
        true
    }

    /// feed token number i
    pub fn step(&mut self, i: usize, t: &Tok) {
        match self.ctl.clone() {
            C::Dead | C::Done => (),
            C::Dir => {
                let Ty::Id(name) = &t.ty else { return self.die(i) };
                let name = name.as_str();
                // a block end belongs to the block, a directive to itself
                let in_world = !self.stack.is_empty();
                if in_world {
                    if let Some(b) = BLOCKS.iter().position(|b| name.strip_suffix("End") == Some(b)) {
                        if self.stack.last().unwrap().0 != b {
                            return self.die(i);
                        }
                        let (k, p, ch) = self.stack.pop().unwrap();
                        let s = format!("{}(BlockStruct {{ pos: {}, children: [{}] }})", BLOCKS[k], p, ch.join(", "));
                        if self.stack.is_empty() {
                            self.world = s;
                            self.ctl = C::Done;
                        } else {
                            self.emit(s);
                        }
                        return;
                    }
                }
                self.dstart = i;
                self.dpos = t.pos;
                self.strs.clear();
                self.nums.clear();
                self.params = ParamSet::new();
                if let Some(b) = BLOCKS.iter().position(|b| name.strip_suffix("Begin") == Some(b)) {
                    if !in_world && b != 2 {
                        return self.die(i);
                    }
                    self.stack.push((b, pos(t.pos), vec![]));
                    return;
                }
                if name == "Include" {
                    self.kind = K::Include;
                    self.ctl = C::Strs(K::Include, 1);
                    return;
                }
                if in_world {
                    if let Some(k) = LEAVES.iter().position(|x| *x == name) {
                        self.kind = K::Leaf(k);
                        self.ctl = C::Strs(self.kind, 1);
                    } else if name == "Texture" {
                        self.kind = K::Texture;
                        self.ctl = C::Strs(K::Texture, 3);
                    } else {
                        self.die(i)
                    }
                } else if name == "Identity" {
                    self.emit(format!("Identity({})", pos(t.pos)));
                } else if let Some(k) = NUMERIC.iter().position(|x| x.0 == name) {
                    self.kind = K::Numeric(k);
                    self.ctl = C::Floats(k);
                } else if let Some(k) = OPTIONS.iter().position(|x| *x == name) {
                    self.kind = K::Option(k);
                    self.ctl = C::Strs(self.kind, 1);
                } else if name == "CoordinateSystem" || name == "CoordSysTransform" {
                    self.kind = K::CoordSys((name == "CoordSysTransform") as usize);
                    self.ctl = C::Strs(self.kind, 1);
                } else if name == "ActiveTransform" {
                    self.kind = K::Active;
                    self.ctl = C::Ident;
                } else {
                    self.die(i)
                }
            }
            C::Ident => {
                let Ty::Id(name) = &t.ty else { return self.die(i) };
                self.strs.push(name.clone());
                self.finish_directive();
            }
            C::Strs(k, n) => {
                let Ty::Str(s) = &t.ty else { return self.die(i) };
                self.strs.push(s.clone());
                if self.strs.len() == n {
                    match k {
                        K::Option(_) | K::Leaf(_) | K::Texture => self.ctl = C::Params,
                        _ => self.finish_directive(),
                    }
                }
            }
            C::Floats(k) => match Self::num(t) {
                Some(f) => self.nums.push(f),
                None => {
                    if self.nums.len() != NUMERIC[k].1 {
                        return self.die(i);
                    }
                    let keep = self.dstart;
                    self.finish_directive();
                    self.step(i, t);
                    if self.dead() && !matches!(t.ty, Ty::Id(_)) {
                        self.fault = Fault::Tok(keep, i);
                    }
                }
            },
            C::Params => match &t.ty {
                Ty::Str(s) => {
                    let w: Vec<&str> = s.split(char::is_whitespace).filter(|w| !w.is_empty()).collect();
                    if w.len() != 2 {
                        return self.die(i);
                    }
                    let Some(ty) = PTYPES.iter().position(|x| *x == w[0]) else { return self.die(i) };
                    self.pname = w[1].to_string();
                    self.ppos = t.pos;
                    self.items.clear();
                    self.ctl = C::Val(ty);
                }
                Ty::Id(_) => {
                    self.finish_directive();
                    self.step(i, t);
                }
                _ => self.die(i),
            },
            C::Val(ty) => {
                let single = matches!(PTYPES[ty], "integer" | "float" | "bool" | "string" | "texture");
                let list = PTYPES[ty] != "texture";
                if t.ty == Ty::LB && list {
                    self.ctl = C::List(ty);
                } else if (single && self.fits(ty, t)) || (PTYPES[ty] == "spectrum" && matches!(t.ty, Ty::Str(_))) {
                    self.items.push(t.clone());
                    self.store(ty);
                } else {
                    self.die(i)
                }
            }
            C::List(ty) => {
                if self.fits(ty, t) {
                    self.items.push(t.clone());
                } else if t.ty == Ty::RB && !self.items.is_empty() {
                    if !self.store(ty) {
                        self.die(i)
                    }
                } else {
                    self.die(i)
                }
            }
        }
    }

    pub fn finish(&self) -> Expect {
        match self.ctl {
            C::Done => Expect::Ok(format!("([{}], {})", self.pre.join(", "), self.world)),
            C::Dead => Expect::Err(self.fault.clone()),
            _ => Expect::Err(Fault::Eof),
        }
    }
}

/// Class of a token: what the grammar can distinguish.
pub fn tclass(t: &Tok) -> u64 {
    match &t.ty {
        Ty::LB => 1,
        Ty::RB => 2,
        Ty::Int(..) => 3,
        Ty::Flt(_) => 4,
        Ty::Id(s) => mix(5, hash_bytes(s.as_bytes())),
        Ty::Str(s) if s == "true" || s == "false" => 6,
        Ty::Str(s) => {
            let w: Vec<&str> = s.split_whitespace().collect();
            if w.len() == 2 && PTYPES.contains(&w[0]) {
                mix(7, hash_bytes(w[0].as_bytes()))
            } else {
                8
            }
        }
    }
}

pub fn judge(text: &str, loc: &mut Local) -> Judged {
    let lx = lex(text, loc);
    let toks = match lx.toks {
        Err(e) => {
            return Judged { expect: Expect::Err(Fault::Lex(e)), toks: vec![], may_reject: false, approx: false }
        }
        Ok(t) => t,
    };
    let mut m = Pda::new();
    let mut s = m.state();
    let mut trailing = false;
    for (i, t) in toks.iter().enumerate() {
        if m.done() {
            trailing = true; // not specified: may be refused, but not change the scene
            break;
        }
        m.step(i, t);
        let s2 = m.state();
        loc.state(s2);
        loc.tran(s, tclass(t), s2);
        s = s2;
        if m.dead() {
            break;
        }
    }
    let expect = m.finish();
    Judged { expect, may_reject: trailing || lx.may_reject || m.soft_int_used, approx: lx.approx, toks }
}
