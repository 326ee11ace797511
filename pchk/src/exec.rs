//! Running the implementation and judging one text.
use crate::model::{self, Expect, Fault, Judged, P};
use crate::node::{agree, Proj};
use fw::{hash_bytes, Local, Res, Viol};
use pbrtrs::parser::Parser;
use std::borrow::Cow;
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicBool, AtomicU8, Ordering::Relaxed};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// Debug rendering of the scene
    Ok(String),
    /// message
    Err(String),
    Panic(String),
}

/// Longest text to run. Slow is not wrong: where the parser's time grows
/// clearly faster than the text, sizes predicted to take more than a few
/// seconds are left out (and counted), so that no time limit is hit.
pub fn too_long(text: &str, loc: &mut Local) -> bool {
    static LIMIT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    if text.len() < 6_000 {
        return false;
    }
    let limit = *LIMIT.get_or_init(|| {
        let fam: [fn(usize) -> String; 5] = [
            |n| format!("WorldBegin {} WorldEnd", "Shape \"s\" ".repeat(n)),
            |n| format!("Film \"f\" \"float a\" [{}] WorldBegin WorldEnd", "1 ".repeat(n)),
            |n| format!("Film \"{}\" WorldBegin WorldEnd", "abcd".repeat(n)),
            |n| format!("{} WorldBegin WorldEnd", "#c\n \n".repeat(n)),
            |n| format!("Film \"f\" {} WorldBegin WorldEnd", "\"float a\" 1 ".repeat(n)),
        ];
        let time = |t: &str| {
            let once = || {
                let s = std::time::Instant::now();
                let _ = catch_unwind(|| Parser::parse(t).is_ok());
                s.elapsed().as_secs_f64()
            };
            let d = once();
            if d < 0.1 { d.min(once()).min(once()) } else { d }
        };
        let mut limit = usize::MAX;
        for f in fam.iter() {
            let first = time(&f(250)).max(5e-6);
            let mut n = 250;
            let (mut t, mut len) = (first, f(250).len());
            while n < 16_000 && t < 0.25 {
                n *= 2;
                let text = f(n);
                t = time(&text);
                len = text.len();
            }
            if t > 4.0 * first * (n as f64 / 250.0) {
                // quadratic from here on: what fits into three seconds
                limit = limit.min((len as f64 * (3.0 / t).sqrt()) as usize).max(6_000);
            }
        }
        limit
    });
    if text.len() > limit {
        loc.count("long texts left out: the parser is not linear", 1);
        return true;
    }
    false
}

pub fn run(text: &str, loc: &mut Local) -> Out {
    loc.note(text);
    let o = run_quiet(text);
    loc.execs += 1;
    loc.outcome(match &o {
        Out::Ok(s) => hash_bytes(s.as_bytes()),
        Out::Err(_) => 1,
        Out::Panic(_) => 2,
    });
    o
}

/// C01 re-runs the spaces of the other parser properties for termination
/// alone: the result is looked at only to see that there is one.
pub static TOTALITY: AtomicBool = AtomicBool::new(false);

pub fn totality(text: &str, loc: &mut Local) -> Option<Res> {
    if too_long(text, loc) {
        return Some(Ok(()));
    }
    if !TOTALITY.load(Relaxed) {
        return None;
    }
    loc.note(text);
    loc.execs += 1;
    Some(match catch_unwind(|| Parser::parse(text).is_ok()) {
        Ok(ok) => {
            loc.outcome(ok as u64);
            Ok(())
        }
        Err(p) => Err(viol(format!("parse panicked: {}", panic_text(p)), text)),
    })
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// Parse as one thread of a schedule; only the parse itself has scheduling points.
pub fn run_sched(text: &str) -> Out {
    match catch_unwind(|| {
        let r = Parser::parse(text);
        fw::Sched::leave();
        match r {
            Ok(s) => Out::Ok(format!("{:?}", s)),
            Err(e) => Out::Err(format!("{}", e)),
        }
    }) {
        Ok(o) => o,
        Err(p) => Out::Panic(panic_text(p)),
    }
}

pub fn run_quiet(text: &str) -> Out {
    match catch_unwind(|| match Parser::parse(text) {
        Ok(s) => Out::Ok(format!("{:?}", s)),
        Err(e) => Out::Err(format!("{}", e)),
    }) {
        Ok(o) => o,
        Err(p) => Out::Panic(panic_text(p)),
    }
}

/// Which disagreements are violations of the property at hand.
#[derive(Clone, Copy)]
pub struct Rule {
    pub proj: Proj,
    /// a text the model accepts must be accepted
    pub must_accept: bool,
    /// a text the model refuses must be refused
    pub must_refuse: bool,
    /// accepted by both: compare (projected)
    pub compare: bool,
}
pub const FULL: Rule = Rule { proj: Proj::NoPos, must_accept: true, must_refuse: true, compare: true };

pub fn viol(what: impl Into<String>, text: &str) -> Viol {
    Viol::new(what, text)
}

/// Every text is put far into a longer one: after many pre-world directives,
/// and its world contents after many world directives.
pub static LATE: AtomicU8 = AtomicU8::new(0);
/// Modes 2 and up: the world contents inside these blocks instead.
const NEST: &[(&str, &str)] = &[
    (" TransformBegin", " TransformEnd "),
    (" Shape \"first\" \"rgb f\" [1 2 3] AttributeBegin TransformBegin Include \"i\" AttributeBegin", " AttributeEnd TransformEnd Material \"m\" \"float last\" 1 AttributeEnd "),
    (" WorldBegin AttributeBegin AttributeEnd TransformBegin", " TransformEnd WorldEnd "),
];
fn nested(text: &str, k: usize) -> String {
    let (a, z) = NEST[k];
    let mut t = text.to_string();
    if let Some(p) = t.rfind("WorldEnd") {
        t.insert_str(p, z);
    }
    if let Some(p) = t.find("WorldBegin") {
        t.insert_str(p + 10, a);
    }
    if k == 0 {
        t.insert_str(0, LATE_PRE);
    }
    t
}
const LATE_PRE: &str = "# a long start
Identity Translate 1 2 3 Scale -1.5 2e1 .25   Rotate 30 0 1 0
LookAt 1 2 3 4 5 6 7 8 9\r\nCoordinateSystem \"cs\" CoordSysTransform \"cs\"
\tTransform 1 0 0 0 1 0 0 0 1 # \u{e9}
ConcatTransform 9 8 7 6 5 4 3 2 1 ActiveTransform All TransformTimes 0 1
Camera \"perspective\" \"float fov\" [45] \"float screenwindow\" [-1 1 -1 1]
Sampler \"halton\" \"integer pixelsamples\" 128 Film \"image\"
  \"string filename\" \"a \u{1d11e} b.png\" \"integer xresolution\" [400] \"integer yresolution\" [400]
Filter \"box\" Integrator \"path\" \"integer maxdepth\" [5] \"bool quick\" [\"true\" \"false\"]
Accelerator \"bvh\" Include \"x.pbrt\" Translate 1 2 3 Translate 1 2 3 Identity Identity
Film \"multi\nline\" \"rgb c\" [1 .5 0] \"xyz d\" [0 0 1] \"spectrum e\" [300 1 400 2 500 3] \"spectrum f\" \"f.spd\"
\"blackbody t\" [6500 1] \"point2 p\" [1 2 3 4] \"vector2 v\" [1 2] \"texture x\" \"t\"
";
const LATE_WORLD: &str = " LightSource \"infinite\" \"rgb L\" [.4 .45 .5] LightSource \"distant\" \"point2 from\" [-30 40]
  \"blackbody L\" [3000 1.5]
AttributeBegin Material \"glass\" Shape \"sphere\" \"float radius\" 1 AttributeEnd # done
AttributeBegin TransformBegin Texture \"checks\" \"spectrum\" \"checkerboard\"
\"float uscale\" [8] \"float vscale\" [8] \"rgb tex1\" [.1 .1 .1] \"rgb tex2\" [.8 .8 .8] TransformEnd
  Material \"matte\" \"texture Kd\" \"checks\" Shape \"trianglemesh\" \"integer indices\" [0 1 2 0 2 3]
 \"float P\" [ -20 -20 0 20 -20 0 20 20 0 -20 20 0 ] \"float st\" [ 0 0 1 0 1 1 0 1 ] AttributeEnd
AreaLightSource \"diffuse\" Include \"y.pbrt\" Include \"y.pbrt\" TransformBegin TransformEnd
Shape \"disk\" Shape \"disk\" Shape \"\u{e9}\" Shape \"a\" \"string s\" [\"x\" \"y\" \"z\"] ";

fn late(text: &str) -> String {
    let mut t = String::with_capacity(text.len() + LATE_PRE.len() + LATE_WORLD.len());
    t.push_str(LATE_PRE);
    match text.find("WorldBegin") {
        Some(p) => {
            t.push_str(&text[..p + 10]);
            t.push_str(LATE_WORLD);
            t.push_str(&text[p + 10..]);
        }
        None => t.push_str(text),
    }
    t
}

/// The text in the context now in force.
pub fn placed(text: &str) -> Cow<str> {
    match LATE.load(Relaxed) {
        0 => Cow::Borrowed(text),
        1 => Cow::Owned(late(text)),
        k => Cow::Owned(nested(text, k as usize - 2)),
    }
}

/// Judge one text against the model.
pub fn conform(text: &str, rule: Rule, loc: &mut Local) -> Res {
    conform_(&placed(text), rule, loc)
}
fn conform_(text: &str, rule: Rule, loc: &mut Local) -> Res {
    if let Some(r) = totality(text, loc) {
        return r;
    }
    let j = model::judge(text, loc);
    let o = run(text, loc);
    decide(text, &j, &o, rule)
}

pub fn decide(text: &str, j: &Judged, o: &Out, rule: Rule) -> Res {
    if let Out::Panic(m) = o {
        return Err(viol(format!("parse panicked: {}", m), text));
    }
    match (&j.expect, o) {
        (Expect::Ok(e), Out::Ok(a)) => {
            if rule.compare && !agree(e, a, rule.proj, if j.approx { 2e-4 } else { 0.0 }) {
                return Err(viol(format!("parsed scene differs ({:?}):\n expected {}\n actual   {}", rule.proj, e, a), text));
            }
            Ok(())
        }
        (Expect::Ok(_), Out::Err(m)) => {
            if rule.must_accept && !j.may_reject {
                return Err(viol(format!("valid text refused: {}", m), text));
            }
            Ok(())
        }
        (Expect::Err(f), Out::Ok(a)) => {
            if rule.must_refuse && !j.may_reject {
                return Err(viol(format!("invalid text ({:?}) accepted as {}", f, a), text));
            }
            Ok(())
        }
        (Expect::Err(_), Out::Err(_)) => Ok(()),
        (_, Out::Panic(_)) => unreachable!(),
    }
}

/// All "(row, column)" citations in a message.
pub fn cited(msg: &str) -> Vec<P> {
    let b = msg.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'(' {
            let mut k = i + 1;
            let num = |k: &mut usize| -> Option<usize> {
                let a = *k;
                while *k < b.len() && b[*k].is_ascii_digit() {
                    *k += 1;
                }
                msg[a..*k].parse().ok()
            };
            if let Some(r) = num(&mut k) {
                if msg[k..].starts_with(", ") {
                    k += 2;
                    if let Some(c) = num(&mut k) {
                        if b.get(k) == Some(&b')') {
                            v.push(P { r, c });
                        }
                    }
                }
            }
        }
        i += 1;
    }
    v
}

/// C13: the positions cited by an error are those of the faulty construct.
pub fn error_points_at_fault(text: &str, loc: &mut Local) -> Res {
    error_points_at_fault_(&placed(text), loc)
}
fn error_points_at_fault_(text: &str, loc: &mut Local) -> Res {
    if let Some(r) = totality(text, loc) {
        return r;
    }
    let j = model::judge(text, loc);
    let o = run(text, loc);
    let (Expect::Err(f), Out::Err(m)) = (&j.expect, &o) else {
        if let Out::Panic(m) = &o {
            return Err(viol(format!("parse panicked: {}", m), text));
        }
        return Ok(());
    };
    if j.may_reject {
        return Ok(());
    }
    let c = cited(m);
    match f {
        Fault::Lex(e) => {
            for p in &c {
                if *p < e.start || *p > e.at {
                    return Err(viol(
                        format!("error {:?} cites {:?}, the bad token starts at {:?} and fails at {:?}", m, p, e.start, e.at),
                        text,
                    ));
                }
            }
        }
        Fault::Tok(a, b) => {
            if c.is_empty() {
                return Err(viol(format!("error {:?} cites no position; the bad token is {:?}", m, j.toks[*b]), text));
            }
            for p in &c {
                if !j.toks[*a..=*b].iter().any(|t| t.pos == *p) {
                    return Err(viol(
                        format!(
                            "error {:?} cites {:?}, which is no token of the faulty directive ({:?} .. {:?})",
                            m, p, j.toks[*a], j.toks[*b]
                        ),
                        text,
                    ));
                }
            }
        }
        Fault::Eof => {
            for p in &c {
                if !j.toks.iter().any(|t| t.pos == *p) {
                    return Err(viol(format!("error {:?} cites {:?}, where no token starts", m, p), text));
                }
            }
        }
    }
    Ok(())
}
