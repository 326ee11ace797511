//! One function per property: the spaces explored and the rule applied.
use crate::dict;
use crate::exec::{conform, decide, error_points_at_fault, placed, run_quiet, run_sched, too_long, totality, viol, Out, Rule, FULL, LATE, TOTALITY};
use crate::gen::*;
use crate::model::{self, Pda, BLOCKS, NUMERIC, OPTIONS, PTYPES};
use crate::node::Proj;
use fw::{digits, nwords, scalar, word, Ctx, Local, Res, NSCALAR};

pub fn run(ctx: &'static Ctx) {
    match ctx.prop.as_str() {
        "C01" => and_late(ctx, c01, &["words-in-context", "token-words", "cut-*", "magnitudes"], &[], &["token-words"]),
        "C01S" => c01_stack(ctx),
        "C01D" => c01_deep(ctx),
        "C02" => and_late(ctx, c02, &["integer-edges", "small-exponent-grid", "adjacent"], &["wide-words"], &["adjacent"]),
        "C03" => and_late(ctx, c03, &["comment-after-token", "layouts-2"], &["gap-words", "layouts-3", "layouts-4", "layouts-5"], &["comment-after-token", "layouts-4"]),
        "C04" => and_late(ctx, c04, &["places", "adjacent"], &["raw-bodies"], &["places", "real-words"]),
        "C05" => and_late(ctx, c05, &["kinds", "string-bodies"], &["prefix-words", "layouts-3"], &["kinds", "string-bodies"]),
        "C06" => and_late(ctx, c06, &["after-pre", "leaf-order", "edits"], &["equal-items", "string-arguments"], &["string-arguments", "leaf-order", "equal-items", "real-types"]),
        "C07" => and_late(ctx, c07, &["header-spelling", "two-hosts"], &["param-words"], &["param-words", "two-hosts", "equal-params", "real-names", "header-spelling", "string-values"]),
        "C08" => and_late(ctx, c08, &["bad-among-good", "arity"], &["long-value-words", "value-words"], &["bad-among-good", "arity", "header-types"]),
        "C09" => and_late(ctx, c09, &["argument-*", "option-params", "string-arguments"], &["equal-items", "active-words"], &["option-params"]),
        "C10" => and_late(ctx, c10, &["base-*", "tree-cuts"], &["cuts"], &["base-*"]),
        "C11" => c11(ctx),
        "C12" => and_late(ctx, c12, &["name-edits", "names-by-section", "required-strings", "short-names"], &["token-words", "required-then-params"], &["name-edits", "names-by-section", "required-strings", "short-names"]),
        "C13" => and_late(ctx, c13, &["token-edits", "params"], &["token-words"], &["token-edits", "params"]),
        p => panic!("unknown property {}", p),
    }
}

use crate::exec::run as exec_run;

/// The spaces of a property, then some of them again with every text placed
/// far into a longer one (see exec::late), and some with the world contents
/// inside further blocks.
fn and_late(ctx: &'static Ctx, f: fn(&'static Ctx), pick: &[&str], thorough: &[&str], nest: &[&str]) {
    f(ctx);
    let mut pick = pick.to_vec();
    if ctx.thorough {
        pick.extend(thorough);
    }
    LATE.store(1, std::sync::atomic::Ordering::Relaxed);
    ctx.within("late", Some(&pick), f);
    for (k, name) in ["in-transform", "in-blocks", "in-worlds"].iter().enumerate() {
        LATE.store(2 + k as u8, std::sync::atomic::Ordering::Relaxed);
        ctx.within(name, Some(nest), f);
    }
    LATE.store(0, std::sync::atomic::Ordering::Relaxed);
}

fn total(text: &str, loc: &mut Local) -> Res {
    let text = &*placed(text);
    // the model is stepped too: its control states measure what was covered
    let _ = model::judge(text, loc);
    match exec_run(text, loc) {
        Out::Panic(m) => Err(viol(format!("parse panicked: {}", m), text)),
        _ => Ok(()),
    }
}

fn put(ctx: &[(&str, &str)], i: usize, body: &str) -> String {
    format!("{}{}{}", ctx[i].0, body, ctx[i].1)
}

// ------------------------------------------------------------------ C01
const LEXCTX: &[(&str, &str)] = &[
    ("", ""),
    ("Film \"f\" \"float a\" ", " WorldBegin WorldEnd"),
    ("Film \"f\" \"integer a\" [1 ", "] WorldBegin WorldEnd"),
    ("WorldBegin Shape \"", "\" WorldEnd"),
    ("WorldBegin Shape \"s\" \"f", "\" 1 WorldEnd"),
    ("Translate 1", " 2 WorldBegin WorldEnd"),
    ("ActiveTransform A", " WorldBegin WorldEnd"),
    ("Identity #", "\nWorldBegin WorldEnd"),
    ("WorldBegin ", ""),
    ("WorldBegin WorldEnd ", ""),
];
const RAW: &[char] = &[
    '"', '\\', '#', '[', ']', '-', '+', '.', 'e', '0', '9', 'a', 'n', 'W', ' ', '\n', '\r', 'é', '²', '\0', '_',
];
const TOKS: &[&str] = &[
    "WorldBegin", "WorldEnd", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "Shape", "Texture", "Include",
    "Camera", "Translate", "Identity", "ActiveTransform", "CoordinateSystem", "Foo", "\"s\"", "\"float a\"", "\"integer a\"",
    "\"rgb a\"", "\"spectrum a\"", "\"point2 a\"", "\"bool a\"", "\"true\"", "1", "2.5", "[", "]",
];

fn c01(ctx: &'static Ctx) {
    let k = RAW.len() as u64;
    let l = if ctx.thorough { 6 } else { 5 };
    ctx.space("raw-words", nwords(k, l), "all texts up to length 5 (6) over 21 characters", |i, loc| {
        let mut w = vec![];
        word(i, k, &mut w);
        let t: String = w.iter().map(|c| RAW[*c]).collect();
        loc.sample(|| t.clone());
        total(&t, loc)
    });
    let l = if ctx.thorough { 4 } else { 3 };
    let n = nwords(k, l);
    ctx.space("words-in-context", n * LEXCTX.len() as u64, "all words up to length 3 (4) over 21 characters in 10 contexts", |i, loc| {
        let mut w = vec![];
        word(i % n, k, &mut w);
        let b: String = w.iter().map(|c| RAW[*c]).collect();
        total(&put(LEXCTX, (i / n) as usize, &b), loc)
    });
    let k = TOKS.len() as u64;
    let l = if ctx.thorough { 4 } else { 3 };
    const TC: &[(&str, &str)] = &[
        ("", ""),
        ("", " WorldBegin WorldEnd"),
        ("WorldBegin ", " WorldEnd"),
        ("WorldBegin AttributeBegin ", ""),
        ("Film \"f\" \"float a\" ", " WorldBegin WorldEnd"),
        ("WorldBegin Shape \"s\" \"spectrum a\" [ ", " ] WorldEnd"),
        ("WorldBegin Shape \"s\" ", " 1 WorldEnd"),
    ];
    let n = nwords(k, l);
    ctx.space("token-words", n * TC.len() as u64, "all token sequences up to length 3 (4) over 27 tokens in 7 contexts", |i, loc| {
        let mut w = vec![];
        word(i % n, k, &mut w);
        let b = w.iter().map(|c| TOKS[*c]).collect::<Vec<_>>().join(" ");
        loc.sample(|| b.clone());
        total(&put(TC, (i / n) as usize, &b), loc)
    });
    ctx.space("every-scalar", NSCALAR * LEXCTX.len() as u64, "every Unicode scalar value in 10 contexts", |i, loc| {
        let c = scalar(i % NSCALAR);
        total(&put(LEXCTX, (i / NSCALAR) as usize, &c.to_string()), loc)
    });
    ctx.space("escaped-scalar", NSCALAR * 2, "every Unicode scalar value after a backslash, closed and unclosed", |i, loc| {
        let c = scalar(i % NSCALAR);
        let t = if i < NSCALAR { format!("Film \"\\{}\" WorldBegin WorldEnd", c) } else { format!("Film \"\\{}", c) };
        total(&t, loc)
    });
    // magnitudes: mantissa x exponent
    let mants = ["0", "1", "-1", "9", "-9", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "0.5", "-.5", "5.", "+1", "1844674407370955161"];
    let exps: Vec<String> = (0..=400)
        .chain([u8::MAX as i64 + 1, 1000, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX as i64, u32::MAX as i64 + 1, u32::MAX as i64 + 2, i64::MAX])
        .map(|x| x.to_string())
        .chain(["9223372036854775808".to_string(), "99999999999999999999999".into(), "1.5".into(), "400.5".into(), ".".into(), "1.5.".into(), "e1".into(), "1e1".into()])
        .collect();
    let sg = ["", "+", "-"];
    ctx.space(
        "magnitudes",
        (mants.len() * exps.len() * 3 * 3) as u64,
        "13 mantissas x 419 exponents (0..400 and around 2^8,2^16,2^31,2^32,2^63) x sign x 3 contexts",
        |i, loc| {
            let d = digits(i, &[mants.len() as u64, exps.len() as u64, 3, 3]);
            total(&put(LEXCTX, d[3] % 3, &format!("{}e{}{}", mants[d[0]], sg[d[2]], exps[d[1]])), loc)
        },
    );
    // every kind of error, at every small distance and some large ones
    let wrong = ["@", "\"", "\"\\q\"", "-", "1.e", "1e99", "Foo", "Shape 1", "Shape \"s\" \"float\" 1", "Shape \"s\" \"float a\" x", "Translate 1", "]", "AttributeEnd", "WorldEnd", "é", "_", "\0"];
    let pad = [" ", "\n", "\r\n", "\t", "#c\n", "Identity ", "Identity\n", "Film \"a b\" ", "Translate 1 2 3\n", "\u{2003}"];
    let sz = sizes(200, 16);
    ctx.space(
        "errors-at-extent",
        (wrong.len() * pad.len() * 6) as u64 * sz.len() as u64,
        "17 kinds of error after 10 kinds of filling repeated 0..200 and up to 2^16 times, then a blank, a row end or neither, in and before the world",
        |i, loc| {
            let d = digits(i, &[wrong.len() as u64, pad.len() as u64, 3, 2, sz.len() as u64]);
            let (n, w) = (sz[d[4]] as usize, d[3] == 1);
            if n > 5_000 && d[0] % 4 != d[1] % 4 {
                return Ok(());
            }
            let fill = if w { pad[d[1]].replace("Identity", "Material \"m\"").replace("Translate 1 2 3", "Include \"i\"").replace("Film", "Shape") } else { pad[d[1]].to_string() };
            let t = format!("{}{}{}{} WorldBegin WorldEnd", if w { "WorldBegin " } else { "" }, fill.repeat(n), ["", " ", "\n"][d[2]], wrong[d[0]]);
            if too_long(&t, loc) {
                return Ok(());
            }
            match exec_run(&t, loc) {
                Out::Panic(m) => Err(viol(format!("parse panicked: {}", m), &t)),
                _ => Ok(()),
            }
        },
    );
    // runs of every two characters
    let k = RAW.len() as u64;
    let run: Vec<u64> = if ctx.thorough { sizes(150, 13) } else { sizes(70, 8) };
    ctx.space(
        "runs",
        k * k * LEXCTX.len() as u64 * run.len() as u64,
        "every one and two of 21 characters repeated 0..70 and up to 2^8 (0..150, up to 2^13) times in 10 contexts",
        |i, loc| {
            let d = digits(i, &[k, k, LEXCTX.len() as u64, run.len() as u64]);
            let t: String = if d[0] == d[1] { RAW[d[0]].to_string() } else { [RAW[d[0]], RAW[d[1]]].iter().collect() };
            total(&put(LEXCTX, d[2], &t.repeat(run[d[3]] as usize)), loc)
        },
    );
    // every cut of a text with every construct
    let b = bases();
    for (bi, toks) in b.iter().enumerate() {
        let t: Vec<char> = join(toks, 1).chars().collect();
        ctx.space(&format!("cut-{}", bi), (t.len() * t.len()) as u64, "every substring of a scene with every construct", |i, loc| {
            let (a, z) = (i as usize / t.len(), i as usize % t.len());
            if a > z {
                return Ok(());
            }
            let s: String = t[a..=z].iter().collect();
            total(&s, loc)
        });
    }
    // every text the other parser properties explore, for termination alone
    if (ctx.thorough || ctx.config == "f32") && LATE.load(std::sync::atomic::Ordering::Relaxed) == 0 {
        TOTALITY.store(true, std::sync::atomic::Ordering::Relaxed);
        for (p, f) in [("C02", c02 as fn(&'static Ctx)), ("C03", c03), ("C04", c04), ("C05", c05), ("C06", c06), ("C07", c07), ("C08", c08), ("C09", c09), ("C10", c10), ("C12", c12), ("C13", c13)] {
            ctx.within(p, None, f);
        }
        TOTALITY.store(false, std::sync::atomic::Ordering::Relaxed);
    }
}

type Fam = (&'static str, fn(usize) -> String, usize);
fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}
const FAMILIES: &[Fam] = &[
    ("comments", |n| format!("{}WorldBegin WorldEnd", rep("# c\n", n)), usize::MAX),
    ("empty comments", |n| rep("#\n", n), usize::MAX),
    ("comments crlf", |n| format!("{}WorldBegin WorldEnd", rep("#\r\n", n)), usize::MAX),
    ("blank and comment", |n| format!("{}WorldBegin WorldEnd", rep(" \t#\n \n", n)), usize::MAX),
    ("comments in world", |n| format!("WorldBegin {}Shape \"s\" {}WorldEnd", rep("#x\n", n), rep("#y\n", n)), usize::MAX),
    ("comments in list", |n| format!("Film \"f\" \"float a\" [1 {} 2] WorldBegin WorldEnd", rep("#x\n", n)), usize::MAX),
    ("hashes", |n| rep("#", n), usize::MAX),
    ("blanks", |n| format!("{}WorldBegin WorldEnd", rep(" ", n)), usize::MAX),
    ("newlines", |n| format!("{}WorldBegin WorldEnd", rep("\n", n)), usize::MAX),
    ("crlf", |n| rep("\r\n", n), usize::MAX),
    ("cr", |n| rep("\r", n), usize::MAX),
    ("digits", |n| format!("Translate {} 1 1 WorldBegin WorldEnd", rep("1", n)), usize::MAX),
    ("fraction", |n| format!("Translate 0.{} 1 1 WorldBegin WorldEnd", rep("3", n)), usize::MAX),
    ("minus", |n| rep("-", n), usize::MAX),
    ("plus", |n| rep("+", n), usize::MAX),
    ("points", |n| rep(".", n), usize::MAX),
    ("exponent chain", |n| rep("1e", n), usize::MAX),
    ("exponent chain closed", |n| format!("Translate {}1 1 1 WorldBegin WorldEnd", rep("1e", n)), usize::MAX),
    ("signed exponent chain", |n| rep("1e-", n), usize::MAX),
    ("fraction exponent chain", |n| rep(".1e", n), usize::MAX),
    ("exponent digits", |n| format!("Translate 1e{} 1 1 WorldBegin WorldEnd", rep("0", n)), usize::MAX),
    ("quotes", |n| rep("\"", n), usize::MAX),
    ("backslashes", |n| format!("\"{}", rep("\\", n)), usize::MAX),
    ("escapes", |n| format!("Film \"{}\" WorldBegin WorldEnd", rep("\\n", n)), usize::MAX),
    ("long string", |n| format!("Film \"{}\" WorldBegin WorldEnd", rep("é", n)), usize::MAX),
    ("long identifier", |n| format!("ActiveTransform {} WorldBegin WorldEnd", rep("aB1", n)), usize::MAX),
    ("open brackets", |n| format!("Film \"f\" \"float a\" {}", rep("[", n)), usize::MAX),
    ("close brackets", |n| format!("Film \"f\" \"float a\" {}", rep("]", n)), usize::MAX),
    ("bracket pairs", |n| format!("Film \"f\" \"float a\" {}", rep("[]", n)), usize::MAX),
    ("float list", |n| format!("Film \"f\" \"float a\" [{}] WorldBegin WorldEnd", rep("1.5 ", n)), usize::MAX),
    ("unclosed float list", |n| format!("Film \"f\" \"float a\" [{}", rep("1.5 ", n)), usize::MAX),
    ("int list", |n| format!("Film \"f\" \"integer a\" [{}] WorldBegin WorldEnd", rep("7 ", n)), usize::MAX),
    ("point list", |n| format!("Film \"f\" \"point2 a\" [{}] WorldBegin WorldEnd", rep("1 2 ", n)), usize::MAX),
    ("odd point list", |n| format!("Film \"f\" \"point2 a\" [{}3] WorldBegin WorldEnd", rep("1 2 ", n)), usize::MAX),
    ("string list", |n| format!("Film \"f\" \"string a\" [{}] WorldBegin WorldEnd", rep("\"s\" ", n)), usize::MAX),
    ("bool list", |n| format!("Film \"f\" \"bool a\" [{}] WorldBegin WorldEnd", rep("\"true\" ", n)), usize::MAX),
    ("spectrum", |n| format!("Film \"f\" \"spectrum a\" [{}] WorldBegin WorldEnd", rep("300 .5 ", n)), usize::MAX),
    ("rgb too long", |n| format!("Film \"f\" \"rgb a\" [{}] WorldBegin WorldEnd", rep("1 ", n)), usize::MAX),
    ("translate too long", |n| format!("Translate {} WorldBegin WorldEnd", rep("1 ", n)), usize::MAX),
    ("params", |n| format!("Film \"f\" {} WorldBegin WorldEnd", rep("\"float a\" 1 ", n)), usize::MAX),
    ("strings only", |n| format!("Film {}", rep("\"f\" ", n)), usize::MAX),
    ("pre directives", |n| format!("{}WorldBegin WorldEnd", rep("Identity ", n)), usize::MAX),
    ("world directives", |n| format!("WorldBegin {}WorldEnd", rep("Shape \"s\" ", n)), usize::MAX),
    ("sibling blocks", |n| format!("WorldBegin {}WorldEnd", rep("AttributeBegin AttributeEnd ", n)), usize::MAX),
    ("stray ends", |n| format!("WorldBegin {}", rep("AttributeEnd ", n)), usize::MAX),
    ("world ends", |n| format!("WorldBegin {}", rep("WorldEnd ", n)), usize::MAX),
    // nesting is bounded by the known finding on block depth
    ("nested blocks", |n| format!("WorldBegin {}{}WorldEnd", rep("AttributeBegin ", n), rep("AttributeEnd ", n)), 256),
    ("unclosed nested blocks", |n| format!("WorldBegin {}", rep("TransformBegin ", n)), 256),
    ("nested worlds", |n| format!("{}{}", rep("WorldBegin ", n), rep("WorldEnd ", n)), 256),
];

/// Long inputs, on the unoptimised build and an 8 MiB stack (that of a main thread).
fn c01_stack(ctx: &'static Ctx) {
    let mut ns: Vec<usize> = (0..=40).collect();
    ns.extend([64, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1024, 4096, 10_000, 65_536, 100_000]);
    if ctx.thorough {
        ns.extend([200_000, 1_000_000]);
    }
    let cases: Vec<(usize, usize)> =
        (0..FAMILIES.len()).flat_map(|f| ns.iter().rev().filter(move |n| **n <= FAMILIES[f].2).map(move |n| (f, *n)).collect::<Vec<_>>()).collect();
    ctx.space("repetition", cases.len() as u64, "48 constructs repeated 0..40 and up to 100000 (1000000) times, unoptimised build, 8 MiB stack", |i, loc| {
        let (f, n) = cases[i as usize];
        let t = FAMILIES[f].1(n);
        loc.state(fw::mix(f as u64, n as u64));
        loc.tran(f as u64, n as u64, 0);
        loc.sample(|| format!("{} x {}", FAMILIES[f].0, n));
        if too_long(&t, loc) {
            return Ok(());
        }
        match exec_run(&t, loc) {
            Out::Panic(m) => Err(viol(format!("parse panicked on {} repeated {} times: {}", FAMILIES[f].0, n, m), &t)),
            _ => Ok(()),
        }
    });
}

/// The listed finding: recursion depth follows block depth.
fn c01_deep(ctx: &'static Ctx) {
    ctx.space("deep-nesting", 1, "100000 nested blocks, unoptimised build, 8 MiB stack", |_, loc| {
        let n = 100_000;
        let t = format!("WorldBegin {}{}WorldEnd", rep("AttributeBegin ", n), rep("AttributeEnd ", n));
        match exec_run(&t, loc) {
            Out::Panic(m) => Err(viol(m, "AttributeBegin nested 100000 deep")),
            _ => Ok(()),
        }
    });
}

// ------------------------------------------------------------------ C02
const NUMCTX: &[(&str, &str)] = &[
    ("Film \"f\" \"float a\" [", "] WorldBegin WorldEnd"),
    ("Film \"f\" \"integer a\" [", "] WorldBegin WorldEnd"),
    ("TransformTimes 5 ", " WorldBegin WorldEnd"),
    ("WorldBegin Shape \"f\" \"float a\" ", " WorldEnd"),
    ("WorldBegin Shape \"f\" \"integer a\" ", " WorldEnd"),
];
fn c02(ctx: &'static Ctx) {
    let rule = Rule { proj: Proj::Numbers, ..FULL };
    let num = |c: usize, body: &str, loc: &mut Local| conform(&put(NUMCTX, c, body), rule, loc);
    const A: &[u8] = b"017-+.e";
    let l = if ctx.thorough { 10 } else { 8 };
    let n = nwords(7, l);
    ctx.space("numeral-words", n * 2, "all words up to length 8 (10) over 0 1 7 - + . e in float and integer lists", |i, loc| {
        let mut w = vec![];
        word(i % n, 7, &mut w);
        let b: String = w.iter().map(|c| A[*c] as char).collect();
        loc.sample(|| b.clone());
        num((i / n) as usize, &b, loc)
    });
    const B: &[char] = &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '.', 'e', 'E', '_', 'x', 'f', ',', '²', '٣'];
    let n = nwords(20, 4);
    ctx.space("wide-words", n * 5, "all words up to length 4 over all digits, - . e E _ x f , and non-ASCII digits, 5 contexts", |i, loc| {
        let mut w = vec![];
        word(i % n, 20, &mut w);
        let b: String = w.iter().map(|c| B[*c]).collect();
        num((i / n) as usize, &b, loc)
    });
    let r = if ctx.thorough { 1_200_000u64 } else { 200_000 };
    ctx.space("integers", (2 * r + 1) * 2, "all integers in -200000..200000 (1200000) in integer and float position", |i, loc| {
        let v = (i % (2 * r + 1)) as i64 - r as i64;
        num(3 + (i / (2 * r + 1)) as usize, &v.to_string(), loc)
    });
    let mut edge: Vec<i128> = vec![];
    for k in 0..=66u32 {
        for d in -3..=3 {
            edge.push((1i128 << k) + d);
        }
    }
    for k in 0..=22u32 {
        for d in -3..=3 {
            for m in 1..=9 {
                edge.push(m * 10i128.pow(k) + d);
            }
        }
    }
    for k in 0..=19 {
        edge.push("12345678901234567890"[..=k].parse().unwrap());
        edge.push("98765432109876543210"[..=k].parse().unwrap());
    }
    edge.sort();
    edge.dedup();
    let sg = ["", "-", "+", "00", "-0", "+000"];
    ctx.space("integer-edges", (edge.len() * sg.len() * 5) as u64, "around every power of 2 up to 2^66 and digit multiples of powers of 10, signs and leading zeros, 5 contexts", |i, loc| {
        let d = digits(i, &[edge.len() as u64, sg.len() as u64, 5]);
        if edge[d[0]] < 0 {
            return Ok(());
        }
        num(d[2], &format!("{}{}", sg[d[1]], edge[d[0]]), loc)
    });
    let mants = [
        "0", "1", "2", "3", "5", "7", "9", "10", "12", "17", "99", "123", "255", "1000", "16777217", "123456789", "9007199254740993", "9223372036854775807",
        "0.0", "0.1", "0.5", "1.5", "2.25", "3.14159", "9.99", "1.23", "12.5", "100.125", "0.001", "0.00001", "123456.789", ".5", ".05", "5.", "1.0", "1.10", "0.000000000000000000000000000000000000000000001", "340282346638528859811704183484516925440.0",
        "123456789012345678901234567890.5",
    ];
    let em = 420u64;
    let esg = ["e", "e+", "e-", "e0", "e-00"];
    let lead = ["", "-", "+"];
    ctx.space(
        "exponents",
        mants.len() as u64 * em * 5 * 3 * 2,
        "39 mantissas x exponents 0..419 in 5 spellings x 3 signs, float and integer position",
        |i, loc| {
            let d = digits(i, &[mants.len() as u64, em, 5, 3, 2]);
            num(d[4], &format!("{}{}{}{}", lead[d[3]], mants[d[0]], esg[d[2]], d[1]), loc)
        },
    );
    ctx.space("small-exponent-grid", 1000 * 24 * 2 * 2, "all 3-digit mantissas (as ddd and d.dd) x exponents -12..11, float and integer position", |i, loc| {
        let d = digits(i, &[1000, 24, 2, 2]);
        let m = if d[2] == 0 { format!("{}", d[0]) } else { format!("{}.{:02}", d[0] / 100, d[0] % 100) };
        num(d[3], &format!("{}e{}", m, d[1] as i64 - 12), loc)
    });
    ctx.space("decimals", 100_000 * 2, "all decimals d.dddd, signed", |i, loc| {
        let v = i % 100_000;
        num(3, &format!("{}{}.{:04}", if i >= 100_000 { "-" } else { "" }, v / 10000, v % 10000), loc)
    });
    let ds = ["1", "9", "0", "3", "8"];
    ctx.space("digit-counts", 60 * 45 * 5 * 2, "0..59 integer digits x 0..44 fraction digits x 5 digits, float and integer position", |i, loc| {
        let d = digits(i, &[60, 45, 5, 2]);
        let mut b = ds[d[2]].repeat(d[0]);
        if d[1] > 0 {
            b.push('.');
            b.push_str(&ds[(d[2] + d[1]) % 5].repeat(d[1]));
        }
        num(d[3], &b, loc)
    });
    // halfway between two adjacent floats, and a trifle below and above:
    // (2M + 1) * 2^-k, written out in full
    let bits: u32 = if cfg!(feature = "f64") { 53 } else { 24 };
    let lim = if ctx.thorough { 4000u64 } else { 400 };
    let kmax: u32 = if cfg!(feature = "f64") { 31 } else { 43 };
    ctx.space(
        "halfway",
        lim * 3 * (kmax as u64 + 1) * 3 * 4,
        "decimal expansions of the midpoints of adjacent floats, 1200 (12000) mantissas x 32 to 44 exponents, exact, just below and just above, 4 spellings",
        |i, loc| {
            let d = digits(i, &[lim, 3, kmax as u64 + 1, 3, 4]);
            let top = 1u128 << bits;
            let m = match d[1] {
                0 => top / 2 + d[0] as u128,
                1 => top - 1 - d[0] as u128,
                _ => top / 2 + (0x9E37_79B9_7F4A_7C15u64.wrapping_mul(d[0] as u64 + 1) >> (65 - bits)) as u128,
            };
            let k = d[2];
            let mut t = ((2 * m + 1) * 5u128.pow(k as u32)).to_string();
            while t.len() <= k {
                t.insert(0, '0');
            }
            let at = t.len() - k; // digits before the point
            match d[3] {
                0 => (),
                1 => t.push_str("000000000001"),
                _ => {
                    // the last digit of an odd multiple of a power of five is not zero
                    let l = t.pop().unwrap();
                    t.push(((l as u8) - 1) as char);
                    t.push_str("999999999999");
                }
            }
            let b = match d[4] {
                0 => format!("{}.{}", &t[..at], &t[at..]),
                1 => format!("-{}.{}e0", &t[..at], &t[at..]),
                2 => format!("{}.{}e{}", &t[..1], &t[1..], at - 1),
                _ => format!("{}e-{}", t, t.len() - at),
            };
            num(0, &b, loc)
        },
    );
    // several numbers side by side: where one literal ends
    const N: &[&str] = &["1", "-2", "+3", ".5", "6.", "7e1", "-8e-1", "[", "]", "\"s\"", "#c\n", " ", "E", "\t"];
    let l = if ctx.thorough { 5 } else { 4 };
    let n = nwords(14, l);
    ctx.space("adjacent", n * 2, "all sequences up to length 4 (5) of 14 numerals and neighbours written without separator", |i, loc| {
        let mut w = vec![];
        word(i % n, 14, &mut w);
        let b: String = w.iter().map(|c| N[*c]).collect();
        num((i / n) as usize * 2, &b, loc)
    });
}

// ------------------------------------------------------------------ C03
fn layout_spaces(ctx: &'static Ctx, f: fn(&str, &mut Local) -> Res) {
    for (bi, b) in bases().into_iter().enumerate() {
        let dev = match (bi, ctx.thorough) {
            (0 | 1, false) => 2,
            (0, true) => 2,
            (1, true) => 3,
            (_, false) => 3,
            (_, true) => 4,
        };
        let ly = Layouts::new(b, dev);
        ctx.space(&format!("layouts-{}", bi), ly.size, &format!("all layouts of base scene {} with at most {} of {} gaps departing from one blank, 14 separators", bi, dev, ly.toks.len() + 1), |i, loc| {
            let t = ly.text(i);
            loc.sample(|| t.clone());
            f(&t, loc)
        });
    }
}
fn c03(ctx: &'static Ctx) {
    fn one(t: &str, loc: &mut Local) -> Res {
        conform(t, FULL, loc)?;
        crlf(t, loc)
    }
    fn crlf(t: &str, loc: &mut Local) -> Res {
        if t.contains('\r') || !t.contains('\n') {
            return Ok(());
        }
        let t2 = t.replace('\n', "\r\n");
        if let Some(r) = totality(&t2, loc) {
            return r;
        }
        let a = exec_run(t, loc);
        let b = exec_run(&t2, loc);
        let same = match (&a, &b) {
            (Out::Ok(x), Out::Ok(y)) => x == y,
            (Out::Err(_), Out::Err(_)) => true,
            _ => false,
        };
        if same {
            Ok(())
        } else {
            Err(viol(format!("LF and CRLF forms of one text parse differently: {:?} / {:?}", a, b), t))
        }
    }
    layout_spaces(ctx, one);
    const CC: &[(&str, &str)] = &[
        ("Identity #", "\nWorldBegin WorldEnd"),
        ("Identity # c ", " c\nWorldBegin WorldEnd"),
        ("Translate 1 2 #", "#\n3 WorldBegin WorldEnd"),
        ("WorldBegin Shape \"s\"#", "\"\n\"float a\" 1 WorldEnd#"),
    ];
    const CW: &[char] = &['"', '#', '[', ']', '\\', '\r', ' ', '*', '/', 'W', '\u{e9}', '1'];
    let nc = nwords(12, if ctx.thorough { 5 } else { 4 });
    ctx.space("comment-words", nc * CC.len() as u64, "all words up to length 4 (5) over 12 characters inside a comment, 4 contexts", |i, loc| {
        let mut w = vec![];
        word(i % nc, 12, &mut w);
        let b: String = w.iter().map(|c| CW[*c]).collect();
        one(&put(CC, (i / nc) as usize, &b), loc)
    });
    let notes = ["#!/bin/pbrt", "# -*- utf-8 -*-", "#include \"a\"", "#pragma once", "#if 0", "#endif", "#begin", "#end", "# WorldEnd", "#WorldEnd", "# AttributeBegin", "#line 7", "# \"open", "# [", "#\\", "#/*", "#*/", "#TODO: \"x\" [1 2", "#\u{feff}", "#=", "#{", "#}", "#<", "#1", "#ff0000", "#EOF", "#\u{1a}", "#\u{0}", "#\u{4}"];
    let nn = notes.len() as u64;
    ctx.space("notes", nn * nn * 5, "every pair of 29 suggestive comments on consecutive lines, at 5 places", |i, loc| {
        let d = digits(i, &[nn, nn, 5]);
        let (a, z) = [("", "Film \"f\" WorldBegin WorldEnd"), ("Film \"f\"\n", "\"float a\" [1 2] WorldBegin WorldEnd"), ("Film \"f\" \"float a\" [1 ", "2] WorldBegin WorldEnd"), ("WorldBegin ", "Shape \"s\" WorldEnd"), ("WorldBegin WorldEnd ", "")][d[2]];
        one(&format!("{}{}\n{}\n{}", a, notes[d[0]], notes[d[1]], z), loc)
    });
    ctx.space("comment-scalars", NSCALAR * CC.len() as u64, "every Unicode scalar value inside a comment, 4 contexts", |i, loc| {
        let c = scalar(i % NSCALAR);
        conform(&put(CC, (i / NSCALAR) as usize, &c.to_string()), FULL, loc)
    });
    const GC: &[(&str, &str)] = &[
        ("Translate 1", "2 3 WorldBegin WorldEnd"),
        ("Identity", "WorldBegin WorldEnd"),
        ("WorldBegin Shape\"s\"", "\"float a\"1 WorldEnd"),
        ("WorldBegin WorldEnd", ""),
        ("Film \"f\" \"float a\" [", "1 ] WorldBegin WorldEnd"),
    ];
    ctx.space("gap-scalars", NSCALAR * GC.len() as u64, "every Unicode scalar value as a separator, 5 contexts", |i, loc| {
        let c = scalar(i % NSCALAR);
        conform(&put(GC, (i / NSCALAR) as usize, &c.to_string()), FULL, loc)
    });
    let nums = numerals();
    let nn = nums.len() as u64;
    ctx.space("numeral-gaps", nn * SEPS.len() as u64 * 5, "1105 numerals, each separator after each, 5 kinds of token next", |i, loc| {
        let d = digits(i, &[nn, SEPS.len() as u64, 5]);
        let (x, s) = (&nums[d[0]], SEPS[d[1]]);
        let t = match d[2] {
            0 => format!("Film \"f\" \"float a\" [{}{}] WorldBegin WorldEnd", x, s),
            1 => format!("Film \"f\" \"float a\" [{}{}-2] WorldBegin WorldEnd", x, s),
            2 => format!("Film \"f\" \"float a\" {}{}\"float b\" 1 WorldBegin WorldEnd", x, s),
            3 => format!("Translate 1 2 {}{}Identity WorldBegin WorldEnd", x, s),
            _ => format!("Film \"f\" \"float a\" [{}{}+.5] WorldBegin WorldEnd", x, s),
        };
        one(&t, loc)
    });
    // white-space and comment runs
    const W: &[&str] = &[" ", "\n", "\r\n", "\t", "#\n", "#a\n", "\r", "#\r\n", "##\n", "#\"\n"];
    let l = if ctx.thorough { 6 } else { 5 };
    let n = nwords(10, l);
    ctx.space("gap-words", n * 2, "all sequences up to length 5 (6) of 10 blanks, line ends and comments between two tokens and at the end", |i, loc| {
        let mut w = vec![];
        word(i % n, 10, &mut w);
        let b: String = w.iter().map(|c| W[*c]).collect();
        let t = if i < n { format!("Translate 1{} 2 3 WorldBegin WorldEnd", b) } else { format!("{}WorldBegin{}Shape{}\"s\"WorldEnd{}", b, if b.is_empty() { " " } else { &b }, b, b) };
        one(&t, loc)
    });
    // a comment at the very end, with and without a line end, after every token
    let b = bases();
    let cases: Vec<(usize, usize)> = (0..b.len()).flat_map(|x| (0..=b[x].len()).map(move |y| (x, y))).collect();
    let cm = ["#", "# x", "#\n", "# Shape \"s\"\n", "#\r\n", "# [ ] \\ \"\n", "#\u{2028}x\n", "#a\rb\n", "# WorldEnd\n"];
    ctx.space("comment-after-token", (cases.len() * cm.len() * 2) as u64, "9 comments glued to every token of the base scenes", |i, loc| {
        let d = digits(i, &[cases.len() as u64, cm.len() as u64, 2]);
        let (x, y) = cases[d[0]];
        let mut t = String::new();
        for (k, tok) in b[x].iter().enumerate() {
            if k == y {
                t.push_str(cm[d[1]]);
            }
            t.push_str(tok);
            if d[2] == 0 || k + 1 != y {
                t.push(' ');
            }
        }
        if y == b[x].len() {
            t.push_str(cm[d[1]]);
        }
        one(&t, loc)
    });
    let sz = sizes(300, 14);
    ctx.space("gap-lengths", sz.len() as u64 * 6, "gaps of 0..300 and up to 2^14 blanks, newlines, comments", |i, loc| {
        let d = digits(i, &[sz.len() as u64, 6]);
        let n = sz[d[0]] as usize;
        let g = [" ", "\n", "#c\n", "\t", "\r\n", "c"][d[1]].repeat(n);
        let t = if d[1] == 5 { format!("Identity #{}\nWorldBegin WorldEnd", g) } else { format!("Identity {}WorldBegin {}WorldEnd{}", g, g, g) };
        conform(&t, FULL, loc)
    });
}

// ------------------------------------------------------------------ C04
const PLACES: &[(&str, &str)] = &[
    ("Film \"", "\" WorldBegin WorldEnd"),
    ("Camera \"", "\" \"float a\" 1 WorldBegin WorldEnd"),
    ("Sampler \"", "\" WorldBegin WorldEnd"),
    ("Filter \"", "\" WorldBegin WorldEnd"),
    ("Integrator \"", "\" WorldBegin WorldEnd"),
    ("Accelerator \"", "\" WorldBegin WorldEnd"),
    ("Include \"", "\" WorldBegin WorldEnd"),
    ("CoordinateSystem \"", "\" WorldBegin WorldEnd"),
    ("CoordSysTransform \"", "\" WorldBegin WorldEnd"),
    ("Film \"f\" \"string a\" \"", "\" WorldBegin WorldEnd"),
    ("Film \"f\" \"string a\" [\"x\" \"", "\" \"y\"] WorldBegin WorldEnd"),
    ("Film \"f\" \"texture a\" \"", "\" WorldBegin WorldEnd"),
    ("Film \"f\" \"spectrum a\" \"", "\" WorldBegin WorldEnd"),
    ("Film \"f\" \"integer ", "\" 1 WorldBegin WorldEnd"),
    ("WorldBegin Shape \"", "\" \"float r\" 1 WorldEnd"),
    ("WorldBegin Material \"", "\" WorldEnd"),
    ("WorldBegin LightSource \"", "\" WorldEnd"),
    ("WorldBegin AreaLightSource \"", "\" WorldEnd"),
    ("WorldBegin Include \"", "\" WorldEnd"),
    ("WorldBegin Texture \"", "\" \"b\" \"c\" WorldEnd"),
    ("WorldBegin Texture \"a\" \"", "\" \"c\" WorldEnd"),
    ("WorldBegin Texture \"a\" \"b\" \"", "\" WorldEnd"),
    ("WorldBegin AttributeBegin Shape \"s\" \"string q\" [ \"", "\" ] AttributeEnd WorldEnd"),
    ("WorldBegin Shape \"s\" \"bool q\" \"", "\" WorldEnd"),
];
fn c04(ctx: &'static Ctx) {
    let rule = Rule { proj: Proj::Strings, ..FULL };
    const A: &[char] = &['a', ' ', '"', '\\', 'n', '#', '[', ']', '\n', '\r', 'é', '1'];
    let l = if ctx.thorough { 6 } else { 5 };
    let n = nwords(12, l);
    ctx.space("raw-bodies", n * 2, "all raw string bodies up to length 5 (6) over 12 characters, then closed / end of input", |i, loc| {
        let mut w = vec![];
        word(i % n, 12, &mut w);
        let b: String = w.iter().map(|c| A[*c]).collect();
        loc.sample(|| b.clone());
        let t = if i < n { format!("Film \"{}\" WorldBegin WorldEnd", b) } else { format!("WorldBegin Shape \"{}", b) };
        conform(&t, rule, loc)
    });
    let l = if ctx.thorough { 4 } else { 3 };
    let n = nwords(12, l);
    ctx.space("places", n * PLACES.len() as u64, "all raw bodies up to length 3 (4) over 12 characters in each of 24 places", |i, loc| {
        let mut w = vec![];
        word(i % n, 12, &mut w);
        let b: String = w.iter().map(|c| A[*c]).collect();
        conform(&put(PLACES, (i / n) as usize, &b), rule, loc)
    });
    const EL: &[char] = &['u', 'U', 'x', 'X', '0', '1', '3', 'o', 'N', 'n', 't', 'r', 'c', 'b', '&', '{'];
    const EW: &[char] = &['0', '4', '1', 'a', 'F', '{', '}'];
    let ne = nwords(7, if ctx.thorough { 7 } else { 5 });
    ctx.space("escape-words", ne * 16 * 2, "a backslash, each of 16 characters, then all words up to length 5 (7) over hexadecimal digits and braces, in a type and in a value", |i, loc| {
        let d = digits(i, &[ne, 16, 2]);
        let mut w = vec![];
        word(d[0] as u64, 7, &mut w);
        let b: String = w.iter().map(|c| EW[*c]).collect();
        conform(&put(PLACES, [0, 10][d[2]], &format!("q\\{}{}z", EL[d[1]], b)), rule, loc)
    });
    const TW: &[&str] = &["e\u{301}", "\u{301}", "\u{1f1e6}", "\u{1f1e7}", "\u{200d}", "\u{1f469}", "\u{fe0f}", "\u{1100}", "\u{1161}", "\u{11a8}", "\u{feff}", "\u{ad}", "\u{202e}", "\u{212b}", "\u{fb01}", "\u{3000}", "\u{2028}", "\u{85}", "\u{0}", "\u{7f}", "\u{1b}[0m", "\u{fffd}", "\u{10ffff}", "\u{df}", "\u{130}", "\r\n", "\n\r", "\t", "%", "'", "$", "/", "//", "/*", "--", "<", "&"];
    let nw = TW.len() as u64;
    ctx.space("unicode-words", nw * nw * nw * 2, "all triples of 37 characters that some software treats specially, in a type and in a value", |i, loc| {
        let d = digits(i, &[nw, nw, nw, 2]);
        conform(&put(PLACES, [0, 10][d[3]], &format!("{}{}{}", TW[d[0]], TW[d[1]], TW[d[2]])), rule, loc)
    });
    let (np, ns) = (dict::PATHS.len() as u64, PLACES.len() as u64);
    ctx.space("real-strings", np * np * ns, "every one of 96 path-like and otherwise suggestive strings, and every two joined, in each of 24 places", |i, loc| {
        let d = digits(i, &[np, np, ns]);
        conform(&put(PLACES, d[2], &format!("{}{}", dict::PATHS[d[0]], if d[1] == 0 { "" } else { dict::PATHS[d[1]] })), rule, loc)
    });
    let all: Vec<&str> = dict::TYPES.iter().chain(dict::NAMES).cloned().collect();
    ctx.space("real-words", all.len() as u64 * ns, "every type and name of real scene files in each of 24 places", |i, loc| {
        let d = digits(i, &[all.len() as u64, ns]);
        conform(&put(PLACES, d[1], all[d[0]]), rule, loc)
    });
    // every content, properly escaped, comes back
    const C: &[char] = &['a', '"', '\\', 'n', '\n', '#', '𝄞', '\t', '\0', 't', '\'', '\u{301}'];
    let n = nwords(12, 4);
    ctx.space("round-trip", n * 3, "every content up to length 4 over 12 characters, escaped minimally, fully, and with \\n", |i, loc| {
        let mut w = vec![];
        word(i % n, 12, &mut w);
        let c: String = w.iter().map(|c| C[*c]).collect();
        let mode = i / n;
        let mut b = String::new();
        for ch in c.chars() {
            match (mode, ch) {
                (2, '\n') => b.push_str("\\n"),
                (_, '"' | '\\') => {
                    b.push('\\');
                    b.push(ch)
                }
                (1, ch) if ch != 'n' => {
                    b.push('\\');
                    b.push(ch)
                }
                (_, ch) => b.push(ch),
            }
        }
        let t = format!("Film \"{}\" WorldBegin WorldEnd", b);
        if let Some(r) = totality(&t, loc) {
            return r;
        }
        match exec_run(&t, loc) {
            Out::Ok(s) => {
                let want = format!("ty: {:?},", c);
                let j = model::judge(&t, loc);
                if s.contains(&want) || decide(&t, &j, &Out::Ok(s.clone()), rule).is_ok() {
                    Ok(())
                } else {
                    Err(viol(format!("string {:?} came back differently: {}", c, s), &t))
                }
            }
            o => Err(viol(format!("string {:?} not delivered: {:?}", c, o), &t)),
        }
    });
    ctx.space("every-scalar", NSCALAR * 4, "every Unicode scalar value raw and escaped, in a type and in a string value", |i, loc| {
        let c = scalar(i % NSCALAR);
        let k = i / NSCALAR;
        let b = if k % 2 == 0 { format!("x{}y", c) } else { format!("x\\{}y", c) };
        conform(&put(PLACES, if k < 2 { 0 } else { 9 }, &b), rule, loc)
    });
    // long before and after the character
    const AROUND: &[(&str, &str, usize)] = &[
        ("", "", 0), ("", "0", 9), ("abc", "", 6), ("twelve chars ", "41", 10), ("a long string, such as a path or a description of some 60 characters", "z", 0),
        ("\\\"", "\\\\", 9), ("é\n", "é", 19),
    ];
    ctx.space("scalars-within", NSCALAR * AROUND.len() as u64 * 2, "every Unicode scalar value raw and escaped, with 7 pairs of texts before and after it", |i, loc| {
        let c = scalar(i % NSCALAR);
        let k = (i / NSCALAR) as usize;
        let (a, z, p) = AROUND[k / 2];
        conform(&put(PLACES, p, &format!("{}{}{}{}", a, if k % 2 == 0 { "" } else { "\\" }, c, z)), rule, loc)
    });
    ctx.space("path-and-name-scalars", NSCALAR * 3, "every Unicode scalar value in a path, a texture name and a block's string list", |i, loc| {
        let c = scalar(i % NSCALAR);
        conform(&put(PLACES, [6, 19, 22][(i / NSCALAR) as usize], &format!("x{}", c)), rule, loc)
    });
    let sz = sizes(600, 17);
    ctx.space("lengths", sz.len() as u64 * 4, "string lengths 0..600 and up to 2^17, 4 contents", |i, loc| {
        let d = digits(i, &[sz.len() as u64, 4]);
        let b = ["a", "é", "\\\"", "\n"][d[1]].repeat(sz[d[0]] as usize);
        conform(&put(PLACES, [0, 9, 6, 14][d[1]], &b), rule, loc)
    });
    // one special character at the start, at the end or inside of strings of many lengths
    const ONE: &[&str] = &[" ", "\n", "\r\n", "\t", "\\n", "\\\"", "\\\\", "#", "[", "é", "𝄞", "\u{301}", "/", ".", "\0", "\u{feff}"];
    let sz2 = sizes(if ctx.thorough { 300 } else { 80 }, 13);
    ctx.space("one-in-long", sz2.len() as u64 * ONE.len() as u64 * 5 * 2, "16 special characters and escapes at the start, the end, both, the middle and before the end of strings of length 0..80 (0..300) and up to 2^13", |i, loc| {
        let d = digits(i, &[sz2.len() as u64, ONE.len() as u64, 5, 2]);
        let (n, x) = (sz2[d[0]] as usize, ONE[d[1]]);
        let a = |n: usize| ["a", "\u{e9}"][d[3]].repeat(n);
        let b = match d[2] {
            0 => format!("{}{}", x, a(n)),
            1 => format!("{}{}", a(n), x),
            2 => format!("{}{}{}", x, a(n), x),
            3 => format!("{}{}{}", a(n / 2), x, a(n - n / 2)),
            _ => format!("{}{}b", a(n), x),
        };
        conform(&put(PLACES, (d[1] + 5 * d[2] + n) % PLACES.len(), &b), rule, loc)
    });
    // several strings in a row keep apart
    const S: &[&str] = &["\"\"", "\"a\"", "\"\\\"\"", "\"#\"", "\"a b\"", "\"\\\\\"", "\"\n\""];
    let n = nwords(7, 5);
    ctx.space("adjacent", n * 2, "all lists of up to 5 of 7 strings, with and without blanks", |i, loc| {
        let mut w = vec![];
        word(i % n, 7, &mut w);
        let b = w.iter().map(|c| S[*c]).collect::<Vec<_>>().join(if i < n { "" } else { " " });
        conform(&format!("Film \"f\" \"string a\" [{}] WorldBegin WorldEnd", b), rule, loc)
    });
}

// ------------------------------------------------------------------ C05
fn c05(ctx: &'static Ctx) {
    const R: Rule = Rule { proj: Proj::Pos, must_accept: false, must_refuse: false, compare: true };
    layout_spaces(ctx, |t, loc| conform(t, R, loc));
    const CC: &[(&str, &str)] = &[
        ("Film \"", "\" \"integer a\" 1 Identity WorldBegin Shape \"s\" WorldEnd"),
        ("Film \"\\", "\" \"integer a\" 1 Identity WorldBegin Shape \"s\" WorldEnd"),
        ("#", "\nIdentity Include \"f\" WorldBegin WorldEnd"),
        ("ActiveTransform a", " Identity WorldBegin Material \"s\" WorldEnd"),
        ("", " Identity WorldBegin AttributeBegin AttributeEnd WorldEnd"),
        ("WorldBegin Texture \"a", "\" \"b\" \"c\" \"float d\" 1 \"bool e\" [\"true\"] WorldEnd"),
    ];
    ctx.space("every-scalar", NSCALAR * CC.len() as u64, "every Unicode scalar value before constructs of the same line, 6 contexts", |i, loc| {
        let c = scalar(i % NSCALAR);
        conform(&put(CC, (i / NSCALAR) as usize, &c.to_string()), R, loc)
    });
    const SB: &[&str] = &["a", "\n", "\r\n", "\r", "\t", " ", "é", "\\\"", "\\\\", "\\n", "\\\n", "#", "𝄞"];
    let l = if ctx.thorough { 5 } else { 4 };
    let n = nwords(13, l);
    ctx.space("string-bodies", n * 3, "all string bodies up to length 4 (5) over 13 elements, 3 places, constructs after it on the same line and the next", |i, loc| {
        let mut w = vec![];
        word(i % n, 13, &mut w);
        let b: String = w.iter().map(|c| SB[*c]).collect();
        let t = match i / n {
            0 => format!("Film \"{}\" \"integer a\" 1 Identity\nIdentity WorldBegin Shape \"s\" WorldEnd", b),
            1 => format!("Film \"x\" \"string s\" [\"{}\" \"b\"] \"float a\" 1 WorldBegin\n Shape \"s\" WorldEnd", b),
            _ => format!("WorldBegin Texture \"a\" \"{}\" \"c\" \"float d\" 1 Shape \"s\"\nAttributeBegin AttributeEnd WorldEnd", b),
        };
        conform(&t, R, loc)
    });
    ctx.space("header-bodies", n, "the same bodies between the type and the name of a parameter", |i, loc| {
        let mut w = vec![];
        word(i, 13, &mut w);
        let b: String = w.iter().map(|c| SB[*c]).collect();
        conform(&format!("WorldBegin Shape \"s\" \"float {} a\" 1 \"bool\tb\" \"true\" Shape \"t\"\nMaterial \"m\" WorldEnd", b), R, loc)
    });
    let nums = numerals();
    let nn = nums.len() as u64;
    ctx.space("after-numerals", nn * 6, "1105 numerals before constructs of the same line and of the next, 6 places", |i, loc| {
        let d = digits(i, &[nn, 6]);
        let x = &nums[d[0]];
        let t = match d[1] {
            0 => format!("Translate {} 2 3 Identity\nFilm \"f\" WorldBegin WorldEnd", x),
            1 => format!("Translate 1 2 {}Identity Film \"f\"\nInclude \"i\" WorldBegin WorldEnd", x),
            2 => format!("Film \"f\" \"float a\" {} \"float b\" 1\n\"bool c\" \"true\" WorldBegin WorldEnd", x),
            3 => format!("WorldBegin Shape \"s\" \"float a\" [1 {}]\"float b\"[{}] Shape \"t\" WorldEnd", x, x),
            4 => format!("WorldBegin Shape \"s\" \"integer a\" {}\"float b\" 2 Shape \"t\"\nShape \"u\" WorldEnd", x),
            _ => format!("WorldBegin Shape \"s\" \"float a\" {}#c\n Shape \"t\" WorldEnd", x),
        };
        conform(&t, R, loc)
    });
    const W: &[&str] = &[" ", "\n", "\r\n", "\t", "#\n", "#ab\n", "\r", "Identity ", "Include \"x\ny\" ", "Include \"é\\\"\" ", "Scale 1 -.5 1e2 "];
    let l = if ctx.thorough { 6 } else { 5 };
    let n = nwords(11, l);
    ctx.space("prefix-words", n, "all sequences up to length 5 (6) of 11 layout elements and directives before a block with parameters", |i, loc| {
        let mut w = vec![];
        word(i, 11, &mut w);
        let b: String = w.iter().map(|c| W[*c]).collect();
        loc.sample(|| b.clone());
        conform(&format!("{}Film \"f\" \"float a\" [1 2]\"bool b\"\"true\" WorldBegin{}\nShape \"s\" WorldEnd", b, if b.is_empty() || b.starts_with(|c: char| c.is_alphabetic()) { " " } else { &b[..1] }), R, loc)
    });
    let sz = sizes(if ctx.thorough { 3000 } else { 700 }, 17);
    let fill = [" ", "\n", "\t", "é", "a", "\r\n", "#c\n", "1", "\\n"];
    ctx.space("extents", sz.len() as u64 * fill.len() as u64, "rows and columns 0..700 (3000) and around every power of 2 up to 2^17, reached in 9 ways", |i, loc| {
        let d = digits(i, &[sz.len() as u64, 9]);
        let g = fill[d[1]].repeat(sz[d[0]] as usize);
        let t = match d[1] {
            3 | 8 => format!("Film \"{}\" \"integer a\" 1 Identity WorldBegin WorldEnd", g),
            4 => format!("ActiveTransform a{} Identity WorldBegin WorldEnd", g),
            7 => format!("Scale 1 1 0.{} Film \"f\" \"integer a\" 1 WorldBegin WorldEnd", g),
            _ => format!("{}Film \"f\" {} \"integer a\" 1 WorldBegin {} AttributeBegin Shape \"s\" AttributeEnd WorldEnd", g, g, g),
        };
        conform(&t, R, loc)
    });
    // every directive and every parameter kind, at an irregular place
    ctx.space("kinds", ((NPRE + NLEAF) * 3 + NPARAM * HOSTS.len() * 3) as u64, "every directive kind and every parameter form on every host, 3 layouts", |i, loc| {
        let i = i as usize;
        let ly = i % 3;
        let k = i / 3;
        let lead = ["", "\n  \t", "# x\n é".trim_end_matches('é')][ly];
        let sep = [" ", "\n  ", "  # c\r\n\t "][ly];
        let t = if k < NPRE {
            format!("{}{}{}{}{}WorldBegin WorldEnd", lead, pre_item(k, 1).replace(' ', sep), sep, pre_item(k, 2), sep)
        } else if k < NPRE + NLEAF {
            let k = k - NPRE;
            format!("{}WorldBegin{}{}{}{}{}WorldEnd", lead, sep, leaf_item(k, 1).replace("\" ", &format!("\"{}", sep)), sep, leaf_item(k, 2), sep)
        } else {
            let k = k - NPRE - NLEAF;
            let (h, w) = HOSTS[k / NPARAM];
            let (a, z) = around(w);
            let p = k % NPARAM;
            format!("{}{}{}{}{}{}{}{}", lead, a, h, sep, param(p, 1), sep, param((p + 5) % NPARAM, 2), z)
        };
        conform(&t, R, loc)
    });
    let n = nwords(9, if ctx.thorough { 6 } else { 5 });
    ctx.space("block-words", n, "all sequences up to length 5 (6) of 9 world elements on their own lines", |i, loc| {
        let mut w = vec![];
        word(i, 9, &mut w);
        const E: &[&str] = &["AttributeBegin", "TransformBegin", "AttributeEnd", "TransformEnd", "WorldBegin", "Shape \"s\"", "Texture \"a\nb\" \"b\"\n\"c\" \"float x\" 1", "Material \"é\"\t\"rgb k\"\n[1 2 3] \"float z\" 1", "Include \"i\""];
        let mut t = String::from("WorldBegin");
        for (k, c) in w.iter().enumerate() {
            t.push_str(["\n", " ", "\r\n  "][(k + c) % 3]);
            t.push_str(E[*c]);
        }
        let m = pda_of(&t);
        if m.dead() {
            return Ok(());
        }
        for (k, c) in m.closers().iter().enumerate() {
            t.push_str([" ", "\n"][k % 2]);
            t.push_str(c);
        }
        conform(&t, R, loc)
    });
}

pub fn pda_of(text: &str) -> Pda {
    let mut m = Pda::new();
    if let Ok(toks) = model::lex_opt(text, None).toks {
        for (i, t) in toks.iter().enumerate() {
            m.step(i, t);
        }
    }
    m
}

// ------------------------------------------------------------------ C06
const SHAPE: Rule = Rule { proj: Proj::Shape, must_accept: true, must_refuse: true, compare: true };

/// Depth-first over all words that extend `word`, pruned where the model is dead or done.
fn block_dfs(syms: &dyn Fn(usize, usize) -> String, k: usize, word: &mut Vec<usize>, depth: usize, layout: usize, loc: &mut Local) -> Res {
    let text = |w: &[usize]| {
        let mut v = vec!["WorldBegin".to_string()];
        for (i, s) in w.iter().enumerate() {
            v.push(syms(*s, i + 1));
        }
        v
    };
    let toks = text(word);
    let t = join(&toks, layout);
    let m = pda_of(&t);
    conform(&t, SHAPE, loc)?;
    if m.done() {
        return Ok(());
    }
    if m.dead() {
        // nothing that follows can repair it: one further step of every kind,
        // and closing whatever is still open
        for s in 0..k {
            word.push(s);
            let r = conform(&join(&text(word), layout), SHAPE, loc);
            word.pop();
            r?;
        }
        for e in BLOCKS {
            conform(&format!("{} {}End", t, e), SHAPE, loc)?;
            conform(&format!("{} {}End WorldEnd", t, e), SHAPE, loc)?;
        }
        return Ok(());
    }
    let mut v = toks;
    v.extend(m.closers());
    conform(&join(&v, layout), SHAPE, loc)?;
    if word.len() < depth {
        for s in 0..k {
            word.push(s);
            let r = block_dfs(syms, k, word, depth, layout, loc);
            word.pop();
            r?;
        }
    }
    Ok(())
}

fn block_space(ctx: &'static Ctx, name: &str, bound: &str, syms: &'static (dyn Fn(usize, usize) -> String + Sync), k: usize, depth: usize, layout: usize) {
    // roots: all words of length 2; words shorter than 2 are done at index 0
    ctx.space(name, (k * k) as u64, bound, |i, loc| {
        if i == 0 {
            let mut w = vec![];
            block_dfs(syms, k, &mut w, 1, layout, loc)?;
        }
        let (a, b) = (i as usize / k, i as usize % k);
        let first = pda_of(&format!("WorldBegin {}", syms(a, 1)));
        if first.dead() || first.done() {
            return Ok(()); // covered (with its extensions) at depth 1
        }
        loc.sample(|| format!("subtree WorldBegin {} {} ...", syms(a, 1), syms(b, 2)));
        let mut w = vec![a, b];
        block_dfs(syms, k, &mut w, depth, layout, loc)
    });
}

fn c06(ctx: &'static Ctx) {
    fn blk(s: usize) -> String {
        format!("{}{}", BLOCKS[s % 3], if s < 3 { "Begin" } else { "End" })
    }
    fn full(s: usize, id: usize) -> String {
        if s < 6 {
            blk(s)
        } else {
            leaf_item(s - 6, id)
        }
    }
    fn reduced(s: usize, id: usize) -> String {
        match s {
            0..=5 => blk(s),
            _ => format!("Shape \"s{}\"", id),
        }
    }
    let th = ctx.thorough;
    block_space(ctx, "all-kinds", "all sequences up to length 5 (6) of all block begins and ends and all leaf kinds, each also closed properly", &full, 12, if th { 6 } else { 5 }, 0);
    block_space(ctx, "all-kinds-lines", "all sequences up to length 4 (5), one per line with comments", &full, 12, if th { 5 } else { 4 }, 1);
    block_space(ctx, "blocks", "all sequences up to length 7 (9) of block begins and ends and one leaf kind, each also closed properly", &reduced, 7, if th { 9 } else { 7 }, 0);
    // with a pre-world section before it
    ctx.space("after-pre", (NPRE * 12 * 12 * 12) as u64, "every pre-world directive kind, then all world sequences of length 3", |i, loc| {
        let d = digits(i, &[NPRE as u64, 12, 12, 12]);
        let w = format!("{} WorldBegin {} {} {}", pre_item(d[0], 7), full(d[1], 1), full(d[2], 2), full(d[3], 3));
        conform(&w, SHAPE, loc)?;
        let m = pda_of(&w);
        if m.dead() || m.done() {
            return Ok(());
        }
        conform(&format!("{} {}", w, m.closers().join(" ")), SHAPE, loc)
    });
    // leaf kinds in order, with several parameters each
    ctx.space("leaf-order", 6u64.pow(5), "all sequences of 5 leaf kinds", |i, loc| {
        let d = digits(i, &[6, 6, 6, 6, 6]);
        let v: Vec<String> = d.iter().enumerate().map(|(i, k)| leaf_item(*k, i)).collect();
        conform(&format!("WorldBegin {} WorldEnd", v.join(" ")), SHAPE, loc)
    });
    // directives that are equal to one another
    const EQ: &[&str] = &[
        "Include \"a\"", "Include \"b\"", "Shape \"a\"", "Shape \"b\"", "Shape \"a\" \"float r\" 1", "Material \"a\"", "LightSource \"a\"", "AreaLightSource \"a\"", "Texture \"a\" \"a\" \"a\"",
        "Texture \"a\" \"b\" \"a\"", "AttributeBegin AttributeEnd", "TransformBegin Shape \"a\" TransformEnd",
    ];
    let n = nwords(12, if th { 6 } else { 5 });
    ctx.space("equal-items", n, "all sequences up to length 5 (6) of 12 fixed items, equal ones included, alternately in the world and in a block", |i, loc| {
        let mut w = vec![];
        word(i, 12, &mut w);
        let b = w.iter().map(|c| EQ[*c]).collect::<Vec<_>>().join(" ");
        let t = match i % 3 {
            0 => format!("WorldBegin {} WorldEnd", b),
            1 => format!("WorldBegin Shape \"a\" AttributeBegin {} AttributeEnd WorldEnd", b),
            _ => format!("WorldBegin TransformBegin {} TransformEnd Shape \"a\" WorldEnd", b),
        };
        conform(&t, SHAPE, loc)
    });
    let sz = sizes(300, if th { 17 } else { 16 });
    ctx.space("siblings", sz.len() as u64 * 12, "0..300 and up to 2^16 (2^17) siblings of every leaf and block kind", |i, loc| {
        let d = digits(i, &[sz.len() as u64, 12]);
        let n = sz[d[0]] as usize;
        let v: Vec<String> = (0..n)
            .map(|i| match d[1] {
                k @ 0..=5 => leaf_item(k, i),
                k @ 6..=8 => format!("{}Begin {}End", BLOCKS[k - 6], BLOCKS[k - 6]),
                k => format!("{}Begin Shape \"x{}\" {}End", BLOCKS[k - 9], i, BLOCKS[k - 9]),
            })
            .collect();
        conform(&format!("WorldBegin {} Shape \"last\" WorldEnd", v.join(" ")), SHAPE, loc)
    });
    let deep: Vec<usize> = (0..300).chain([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500]).collect();
    ctx.space("depth", deep.len() as u64 * 6, "nesting depth 0..299 and up to 1500 in 3 patterns of kinds, with leaves before, inside and after every block, complete and with one end missing", |i, loc| {
        let d = digits(i, &[deep.len() as u64, 3, 2]);
        let n = deep[d[0]];
        let kind = |i: usize| BLOCKS[[0, 1, i % 3][d[1]]];
        let mut t = String::from("WorldBegin");
        for i in 0..n {
            t.push_str(&format!(" Shape \"b{}\" {}Begin", i, kind(i)));
        }
        t.push_str(" Material \"in\"");
        for i in (0..n).rev() {
            if d[2] == 1 && i == n / 2 {
                continue;
            }
            t.push_str(&format!(" {}End Shape \"a{}\"", kind(i), i));
        }
        t.push_str(" WorldEnd");
        conform(&t, SHAPE, loc)
    });
    let nt = dict::TYPES.len() as u64;
    ctx.space("real-types", nt * nt * 8, "every pair of 98 types of real scene files on two leaves, one of them in a block", |i, loc| {
        let d = digits(i, &[nt, nt, 8]);
        let leaf = |k: usize, t: &str| match k % 8 {
            0 => format!("Shape \"{}\"", t),
            1 => format!("Material \"{}\"", t),
            2 => format!("LightSource \"{}\"", t),
            3 => format!("AreaLightSource \"{}\"", t),
            4 => format!("Texture \"{}\" \"float\" \"constant\"", t),
            5 => format!("Texture \"t\" \"{}\" \"constant\"", t),
            6 => format!("Texture \"t\" \"color\" \"{}\"", t),
            _ => format!("Include \"{}\"", t),
        };
        conform(&format!("WorldBegin {} AttributeBegin {} AttributeEnd Shape \"z\" WorldEnd", leaf(d[2], dict::TYPES[d[0]]), leaf(d[2] + d[0], dict::TYPES[d[1]])), SHAPE, loc)
    });
    let strs: Vec<&str> = dict::PATHS.iter().chain(dict::TYPES).cloned().collect();
    let ns = strs.len() as u64;
    ctx.space("string-arguments", ns * 8 * 6 * 3, "every string of every leaf as each of 200 real names, types and paths, 6 decorations, 3 places", |i, loc| {
        let d = digits(i, &[ns, 8, 6, 3]);
        let s = decorated(strs[d[0]], d[2]);
        let l = match d[1] {
            k @ 0..=3 => format!("{} \"{}\"", ["Shape", "Material", "LightSource", "AreaLightSource"][k], s),
            4 => format!("Texture \"{}\" \"float\" \"constant\"", s),
            5 => format!("Texture \"t\" \"{}\" \"constant\"", s),
            6 => format!("Texture \"t\" \"color\" \"{}\"", s),
            _ => format!("Include \"{}\"", s),
        };
        conform(&match d[3] {
            0 => format!("WorldBegin {} WorldEnd", l),
            1 => format!("WorldBegin Shape \"a\" AttributeBegin {} AttributeEnd WorldEnd", l),
            _ => format!("WorldBegin TransformBegin Include \"a\" {} {} TransformEnd WorldEnd", l, l),
        }, SHAPE, loc)
    });
    // every end replaced by every other end or leaf out, in a deep mixed tree
    let tree: Vec<String> = "WorldBegin AttributeBegin Shape TransformBegin AttributeBegin Shape AttributeEnd Shape WorldBegin TransformBegin TransformEnd WorldEnd TransformEnd Shape AttributeEnd TransformBegin Shape TransformEnd Shape WorldEnd"
        .split(' ')
        .enumerate()
        .map(|(i, s)| if s == "Shape" { format!("Shape \"s{}\"", i) } else { s.to_string() })
        .collect();
    let n = tree.len();
    ctx.space("edits", (n * n * 8 * 8) as u64, "all pairs of edits (replace by a block end or begin, delete, keep) of a mixed tree", |i, loc| {
        let d = digits(i, &[n as u64, n as u64, 8, 8]);
        let mut v: Vec<String> = tree.clone();
        for (p, e) in [(d[0], d[2]), (d[1], d[3])] {
            v[p] = match e {
                0..=5 => blk(e),
                6 => String::new(),
                _ => v[p].clone(),
            };
        }
        conform(&v.join(" "), SHAPE, loc)
    });
}

// ------------------------------------------------------------------ C07
fn c07(ctx: &'static Ctx) {
    const R: Rule = Rule { proj: Proj::NoPos, must_accept: true, must_refuse: false, compare: true };
    let l = if ctx.thorough { 4 } else { 3 };
    let np = NPARAM as u64;
    let n = nwords(np, l);
    ctx.space("param-words", n * HOSTS.len() as u64, "all sequences up to 3 (4) of 22 parameter forms on each of 11 directives", |i, loc| {
        let (h, w) = HOSTS[(i / n) as usize];
        let mut ws = vec![];
        word(i % n, np, &mut ws);
        let mut s = String::new();
        for (u, k) in ws.iter().enumerate() {
            s.push(' ');
            s.push_str(&param(*k, u + 1));
        }
        loc.sample(|| s.clone());
        let (a, z) = around(w);
        conform(&format!("{}{}{}{}", a, h, s, z), R, loc)
    });
    // parameters stay with their directive
    let nh = HOSTS.len() as u64;
    ctx.space("two-hosts", nh * nh * np * np, "every pair of consecutive directives, each with one of 22 parameter forms, then one without", |i, loc| {
        let d = digits(i, &[nh, nh, np, np]);
        let ((h1, w1), (h2, w2)) = (HOSTS[d[0]], HOSTS[d[1]]);
        let (p1, p2) = (param(d[2], 1), param(d[3], 2));
        let t = match (w1, w2) {
            (false, false) => format!("{} {} {} {} Filter \"none\" WorldBegin Shape \"none\" WorldEnd", h1, p1, h2, p2),
            (false, true) => format!("{} {} WorldBegin {} {} Shape \"none\" WorldEnd", h1, p1, h2, p2),
            (true, true) => format!("WorldBegin {} {} AttributeBegin {} {} AttributeEnd Shape \"none\" WorldEnd", h1, p1, h2, p2),
            (true, false) => format!("WorldBegin {} AttributeBegin {} {} AttributeEnd {} {} WorldEnd", h1, h1, p1, h1, p2),
        };
        conform(&t, R, loc)
    });
    // list lengths, every list type
    let lt = ["integer", "float", "point2", "vector2", "bool", "string", "spectrum"];
    let sz = sizes(300, 16);
    ctx.space("list-lengths", sz.len() as u64 * 7 * 2, "lists of 1..300 and up to 2^16 items of every list type, pre-world and world", |i, loc| {
        let d = digits(i, &[sz.len() as u64, 7, 2]);
        let n = sz[d[0]] as usize;
        if n == 0 {
            return Ok(());
        }
        let v: Vec<String> = (0..n)
            .map(|i| match lt[d[1]] {
                "integer" => format!("{}", i as i64 * 3 - 7),
                "float" => format!("{}.5", i),
                "bool" => format!("\"{}\"", i % 3 == 0),
                "string" => format!("\"s{}\"", i),
                _ => format!("{} {}.25", i, i + 1),
            })
            .collect();
        let (h, w) = HOSTS[if d[2] == 0 { 2 } else { 7 }];
        let (a, z) = around(w);
        conform(&format!("{}{} \"{} l\" [{}] \"float last\" 2{}", a, h, lt[d[1]], v.join(" "), z), R, loc)
    });
    let sz2 = sizes(300, 16);
    ctx.space("param-counts", sz2.len() as u64 * 5, "0..300 and up to 2^16 parameters on one directive, 5 mixes of types and names", |i, loc| {
        let d = digits(i, &[sz2.len() as u64, 5]);
        let mut s = String::new();
        for i in 0..sz2[d[0]] as usize {
            match d[1] {
                0 => s.push_str(&format!(" \"integer x\" {}", i)),
                1 => s.push_str(&format!(" \"float y{}\" [{} 1]", i, i)),
                2 => s.push_str(&format!(" \"rgb c{}\" [{} 0 1]", i % 3, i)),
                _ => s.push_str(&format!(" {}", param((i * d[1]) % NPARAM, i))),
            }
        }
        conform(&format!("WorldBegin Shape \"s\"{} Material \"m\" WorldEnd", s), R, loc)
    });
    // header spelling
    ctx.space("name-scalars", NSCALAR * 3, "every Unicode scalar value as a name, inside a name, and between type and name", |i, loc| {
        let c = scalar(i % NSCALAR);
        let h = match (i / NSCALAR, c) {
            (_, '"' | '\\') => return Ok(()),
            (0, c) => format!("integer {}", c),
            (1, c) => format!("integer a{}b", c),
            (_, c) => format!("integer{}a", c),
        };
        conform(&format!("Film \"f\" \"{}\" 1 WorldBegin WorldEnd", h), R, loc)
    });
    let gaps = [" ", "  ", "\t", "\n", "\r\n", " \t ", "\\n", "\u{a0}"];
    let outer = ["", " ", "\n", "\t"];
    let names = ["a", "N", "float", "integer", "a-b", "1", "a.b", "[", "#x", "true", "é", "x_y", "rgb", "a:b", "WorldEnd"];
    ctx.space("header-spelling", (11 * 8 * 4 * 4 * names.len()) as u64, "every type x 8 inner gaps x 4 leading x 4 trailing blanks x 15 names", |i, loc| {
        let d = digits(i, &[11, 8, 4, 4, names.len() as u64]);
        let v = match PTYPES[d[0]] {
            "integer" => "[3]",
            "float" => "4",
            "bool" => "\"true\"",
            "string" | "texture" => "\"v\"",
            "rgb" | "xyz" => "[1 2 3]",
            _ => "[1 2]",
        };
        conform(&format!("Film \"f\" \"{}{}{}{}{}\" {} WorldBegin WorldEnd", outer[d[2]], PTYPES[d[0]], gaps[d[1]], names[d[4]], outer[d[3]], v), R, loc)
    });
    // what the values are: every short list over a few values of each type
    let nums = ["0", "1", "-7", "5", "-.5", "1e3", "2.5"];
    let ints = ["0", "1", "-7", "5", "-3", "1000", "2"];
    let strs = ["\"a\"", "\"b\"", "\"\"", "\"a b\"", "\"true\"", "\"A\"", "\"1\""];
    let bools = ["\"true\"", "\"false\"", "\"true\"", "\"false\"", "\"false\"", "\"true\"", "\"true\""];
    let n = nwords(7, if ctx.thorough { 7 } else { 6 });
    ctx.space("value-lists", n * 10, "all lists up to length 6 (7) over 7 values (2 for bool) of each type, equal and unsorted ones included", |i, loc| {
        let mut w = vec![];
        word(i % n, 7, &mut w);
        let ty = PTYPES[(i / n) as usize];
        let vals = match ty {
            "integer" => &ints,
            "string" => &strs,
            "bool" => &bools,
            _ => &nums,
        };
        let b = w.iter().map(|c| vals[*c]).collect::<Vec<_>>().join(" ");
        conform(&format!("WorldBegin Shape \"s\" \"{} v\" [{}] WorldEnd", ty, b), R, loc)
    });
    const EQ: &[&str] = &[
        "\"float a\" 1", "\"float a\" [1 1]", "\"float b\" 1", "\"integer a\" 1", "\"string a\" \"a\"", "\"texture a\" \"a\"", "\"rgb a\" [1 1 1]", "\"xyz a\" [1 1 1]", "\"spectrum a\" [1 1]", "\"spectrum a\" \"a\"",
        "\"point2 a\" [1 1]", "\"vector2 a\" [1 1]", "\"bool a\" \"true\"",
    ];
    let n = nwords(13, if ctx.thorough { 5 } else { 4 });
    ctx.space("equal-params", n * 2, "all sequences up to 4 (5) of 13 fixed parameters, equal ones included, on an option and on a shape", |i, loc| {
        let mut w = vec![];
        word(i % n, 13, &mut w);
        let b = w.iter().map(|c| EQ[*c]).collect::<Vec<_>>().join(" ");
        let t = if i < n { format!("WorldBegin Shape \"a\" {} WorldEnd", b) } else { format!("Film \"a\" {} WorldBegin WorldEnd", b) };
        conform(&t, R, loc)
    });
    // the numbers of every list are those written
    let nums = numerals();
    let nn = nums.len() as u64;
    const NF: &[(&str, &str, &str)] = &[
        ("integer", "", ""), ("integer", "[", "]"), ("integer", "[1 ", " 2]"), ("float", "", ""), ("float", "[", "]"), ("float", "[1 ", " 2]"), ("point2", "[", " 2]"), ("point2", "[1 ", "]"), ("point2", "[1 2 3 ", "]"), ("vector2", "[", " 2]"), ("vector2", "[1 ", "]"),
        ("rgb", "[", " 2 3]"), ("rgb", "[1 ", " 3]"), ("rgb", "[1 2 ", "]"), ("xyz", "[", " 2 3]"), ("xyz", "[1 ", " 3]"), ("xyz", "[1 2 ", "]"), ("spectrum", "[", " 2]"), ("spectrum", "[1 ", "]"), ("spectrum", "[1 2 ", " 4]"), ("blackbody", "[", " 2]"), ("blackbody", "[1 ", "]"),
    ];
    ctx.space("numerals", nn * NF.len() as u64 * 2, "1105 numerals at every place of every numeric type, on an option and on a shape", |i, loc| {
        let d = digits(i, &[nn, NF.len() as u64, 2]);
        let (t, a, z) = NF[d[1]];
        let (h, w) = HOSTS[[2, 7][d[2]]];
        let (b, e) = around(w);
        conform(&format!("{}{} \"{} a\" {}{}{} \"float last\" 7{}", b, h, t, a, nums[d[0]], z, e), R, loc)
    });
    // names of real scene files
    const RV: &[(&str, &str)] = &[
        ("bool", "\"false\""), ("bool", "[\"true\" \"true\"]"), ("integer", "-1"), ("integer", "[0]"), ("integer", "[0 1 2 0 2 3]"), ("float", "-0.5"), ("float", "[0]"), ("float", "[0 1 0 1]"), ("float", "[400]"), ("point2", "[0 0 1 1]"), ("vector2", "[-1 2]"),
        ("rgb", "[0 0 0]"), ("rgb", "[1.5 -1 .25]"), ("xyz", "[1 1 1]"), ("spectrum", "[300 0 400 1]"), ("spectrum", "\"metals/Au.eta.spd\""), ("blackbody", "[6500 1]"), ("string", "\"Linear\""), ("string", "[\"a\" \"a\"]"), ("texture", "\"none\""),
    ];
    let (nn, nh, nv) = (dict::NAMES.len() as u64, HOSTS.len() as u64, RV.len() as u64);
    ctx.space("real-names", nn * nh * nv, "every one of 198 parameter names of real scene files on every host with each of 20 values", |i, loc| {
        let d = digits(i, &[nn, nh, nv]);
        let (h, w) = HOSTS[d[1]];
        let (a, z) = around(w);
        let (t, v) = RV[d[2]];
        conform(&format!("{}{} \"{} {}\" {} \"float last\" 7{}", a, h, t, dict::NAMES[d[0]], v, z), R, loc)
    });
    let nt = dict::TYPES.len() as u64;
    ctx.space("real-types", nn * nt * nv, "every type of real scene files with every name and each of 20 values, hosts in turn", |i, loc| {
        let d = digits(i, &[nn, nt, nv]);
        let (h, w) = HOSTS[(d[0] + d[1] + d[2]) % HOSTS.len()];
        let (a, z) = around(w);
        let (t, v) = RV[d[2]];
        let k = h.split(' ').next().unwrap();
        conform(&format!("{}{} {}\"{}\" \"{} {}\" {}{}", a, k, if k == "Texture" { "\"x\" \"color\" " } else { "" }, dict::TYPES[d[1]], t, dict::NAMES[d[0]], v, z), R, loc)
    });
    ctx.space("real-name-pairs", nn * nn * 4, "every pair of names of real scene files on one directive, equal and different types", |i, loc| {
        let d = digits(i, &[nn, nn, 4]);
        let (h, w) = HOSTS[(d[0] + d[1]) % HOSTS.len()];
        let (a, z) = around(w);
        let (t, u) = [("float", "float"), ("integer", "float"), ("string", "texture"), ("rgb", "rgb")][d[2]];
        let v = |t: &str, k: usize| match t {
            "rgb" => format!("[{} 0 1]", k),
            "string" | "texture" => format!("\"v{}\"", k),
            _ => format!("[{} {}]", k, k + 1),
        };
        conform(&format!("{}{} \"{} {}\" {} \"{} {}\" {}{}", a, h, t, dict::NAMES[d[0]], v(t, 1), u, dict::NAMES[d[1]], v(u, 3), z), R, loc)
    });
    // single value and one-element list are the same
    let strs: Vec<&str> = dict::PATHS.iter().chain(dict::TYPES).cloned().collect();
    let ns = strs.len() as u64;
    ctx.space("string-values", ns * 6 * 6 * 11, "each of 200 real names, types and paths, 6 decorations, as the value of every type that takes strings, in 6 forms, on every host", |i, loc| {
        let d = digits(i, &[ns, 6, 6, 11]);
        let x = decorated(strs[d[0]], d[1]);
        let v = match d[2] {
            0 => format!("\"string a\" \"{}\"", x),
            1 => format!("\"string a\" [\"{}\"]", x),
            2 => format!("\"string a\" [\"u\" \"{}\" \"{}\" \"v\"]", x, x),
            3 => format!("\"texture a\" \"{}\"", x),
            4 => format!("\"spectrum a\" \"{}\"", x),
            _ => format!("\"texture a\" \"t\" \"texture a\" \"{}\" \"string a\" \"{}\" \"spectrum a\" \"{}\"", x, x, x),
        };
        let (h, w) = HOSTS[d[3]];
        let (a, z) = around(w);
        conform(&format!("{}{} {}{}", a, h, v, z), R, loc)
    });
    ctx.space("single-or-list", 2000 * 4, "2000 values of each type, written bare and as a one-element list: equal results", |i, loc| {
        let d = digits(i, &[2000, 4]);
        let n = d[0] as i64 - 1000;
        let (ty, v) = match d[1] {
            0 => ("integer", n.to_string()),
            1 => ("float", format!("{}", n as f32 / 8.0)),
            2 => ("string", format!("\"s {}\"", n)),
            _ => ("bool", format!("\"{}\"", n % 2 == 0)),
        };
        if let Some(r) = totality(&format!("WorldBegin Shape \"s\" \"{} a\" {} WorldEnd", ty, v), loc) {
            return r.and_then(|_| totality(&format!("WorldBegin Shape \"s\" \"{} a\" [{}] WorldEnd", ty, v), loc).unwrap());
        }
        let a = exec_run(&format!("WorldBegin Shape \"s\" \"{} a\" {} WorldEnd", ty, v), loc);
        let b = exec_run(&format!("WorldBegin Shape \"s\" \"{} a\" [{}] WorldEnd", ty, v), loc);
        if a == b && matches!(a, Out::Ok(_)) {
            Ok(())
        } else {
            Err(viol(format!("{} {} bare and bracketed differ: {:?} / {:?}", ty, v, a, b), &v))
        }
    });
}

// ------------------------------------------------------------------ C08
const BADHEAD: &[&str] = &[
    "", " ", "float", "float a b", "foo a", "Float a", "floats a", "floa a", "a float", "integer  ", "float,a", "rgba a", "tex a", "FLOAT a", "float a float", "int a",
];
fn c08(ctx: &'static Ctx) {
    const R: Rule = Rule { proj: Proj::NoPos, must_accept: false, must_refuse: true, compare: true };
    const V: &[&str] = &["[", "]", "1", "2.5", "\"true\"", "\"w\"", "\"integer y\"", "Include"];
    let heads: Vec<String> = PTYPES.iter().map(|t| format!("{} a", t)).chain(BADHEAD.iter().map(|s| s.to_string())).collect();
    const C: &[(&str, &str)] = &[
        ("Film \"f\" \"", " WorldBegin WorldEnd"),
        ("WorldBegin Shape \"f\" \"", " WorldEnd"),
        ("WorldBegin AttributeBegin Texture \"f\" \"g\" \"h\" \"float ok\" 1 \"", " AttributeEnd Material \"m\" \"float ok\" 1 WorldEnd"),
        ("Camera \"f\" \"bool ok\" \"true\" \"", " \"float z\" 9 Identity WorldBegin WorldEnd"),
    ];
    let l = if ctx.thorough { 6 } else { 5 };
    let n = nwords(8, l);
    ctx.space("value-words", n * heads.len() as u64 * 4, "all value token sequences up to length 5 (6) over 8 tokens after each of 27 headers, 4 contexts", |i, loc| {
        let d = digits(i, &[n, heads.len() as u64, 4]);
        let mut w = vec![];
        word(d[0] as u64, 8, &mut w);
        let mut t = format!("{}{}\"", C[d[2]].0, heads[d[1]]);
        for c in w {
            t.push(' ');
            t.push_str(V[c]);
        }
        t.push_str(C[d[2]].1);
        loc.sample(|| t.clone());
        conform(&t, R, loc)
    });
    // types that are almost known ones, and those of other versions of the format
    let mut types: Vec<String> = ["point", "point3", "vector", "vector3", "normal", "normal3", "color", "colour", "string[]", "strings", "boolean", "double", "number", "ints", "integers", "i", "f", "spd", "textures", "real", "rgbs", "spectra", "temperature", "point4", "point2f", "vector2f", "point1", "float2", "float3", "black", "body", "xyy", "none"].iter().map(|s| s.to_string()).collect();
    for t in PTYPES {
        let c: Vec<char> = t.chars().collect();
        types.push(t.to_uppercase());
        types.push(format!("{}{}", t, t));
        for i in 0..=c.len() {
            for x in ['x', '1', 's', '3', '.', '_', '-', ':', '\u{e9}', '\u{200b}'] {
                let mut d = c.clone();
                d.insert(i, x);
                types.push(d.iter().collect());
                if i < c.len() {
                    d.remove(i + 1);
                    types.push(d.iter().collect());
                }
            }
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                types.push(d.iter().collect());
                let mut d = c.clone();
                d[i] = c[i].to_ascii_uppercase();
                types.push(d.iter().collect());
                types.push(c[..i].iter().collect());
                types.push(c[i..].iter().collect());
            }
            if i > 0 && i < c.len() {
                let mut d = c.clone();
                d.swap(i - 1, i);
                types.push(d.iter().collect());
            }
        }
    }
    types.sort();
    types.dedup();
    const VAL: &[&str] = &["1", "[1]", "[1 2]", "[1 2 3]", "[1 2 3 4]", "2.5", "\"true\"", "[\"true\"]", "\"w\"", "[\"w\" \"v\"]"];
    ctx.space("header-types", types.len() as u64 * VAL.len() as u64 * 4, "every one-character edit, prefix, suffix and case change of every type name, and types of other versions of the format, with each of 10 values, 4 contexts", |i, loc| {
        let d = digits(i, &[types.len() as u64, VAL.len() as u64, 4]);
        conform(&format!("{}{} a\" {}{}", C[d[2]].0, types[d[0]], VAL[d[1]], C[d[2]].1), R, loc)
    });
    // one word more in the header, or another word in place of the type
    let mut extra: Vec<&str> = vec!["uniform", "varying", "vertex", "constant", "const", "class", "facevarying", "array", "list", "of", "=", "1", "[]", "[1]", "(1)", "\u{2014}", "in", "out", "a", "b", "unsigned", "signed", "long", "static", "the", "and", "#", "//", "/*x*/", "-", "*", ",", ";", ":"];
    extra.extend(PTYPES);
    extra.extend(dict::NAMES);
    extra.extend(dict::TYPES.iter().filter(|t| !t.is_empty()));
    extra.sort();
    extra.dedup();
    let np = NPARAM as u64;
    ctx.space("header-extra", extra.len() as u64 * np * 5, "each of some 330 words before, between, after and twice in the header of each of 22 parameter forms, or as its type", |i, loc| {
        let d = digits(i, &[extra.len() as u64, np, 5]);
        let w = extra[d[0]];
        let p = param(d[1], 1);
        let (h, rest) = p[1..].split_once('"').unwrap();
        let (ty, name) = h.split_once(' ').unwrap();
        let h = match d[2] {
            0 => format!("{} {} {}", w, ty, name),
            1 => format!("{} {} {}", ty, w, name),
            2 => format!("{} {} {}", ty, name, w),
            3 => format!("{} {} {} {}", w, ty, name, w),
            _ => format!("{} {}", w, name),
        };
        let c = C[(d[0] + d[1]) % 4];
        conform(&format!("{}{}\"{}{}", c.0, h, rest, c.1), R, loc)
    });
    const SC: &[(&str, &str)] = &[
        ("", "bool a\" \"true\""), ("bool", " a\" \"true\""), ("bo", "ol a\" \"true\""), ("bool a\" \"", "true\""), ("bool a\" [\"true", "\"]"), ("bool a\" [\"fal", "se\"]"),
        ("float a\" [1", "]"), ("float a\" ", "1"), ("integer a\" [1", "2]"), ("rgb a\" [1 2 3", "]"), ("rgb a\" ", "[1 2 3]"), ("point2 a\" [1 2]", ""),
    ];
    ctx.space("value-scalars", NSCALAR * SC.len() as u64, "every Unicode scalar value inside and beside a header's type, a boolean, a number and a bracket", |i, loc| {
        let (a, z) = SC[(i / NSCALAR) as usize];
        conform(&format!("{}{}{}{}{}", C[1].0, a, scalar(i % NSCALAR), z, C[1].1), R, loc)
    });
    let sp = spellings();
    let ns = sp.len() as u64;
    const FORM: &[(&str, &str)] = &[("", ""), ("[", "]"), ("[1 ", "]"), ("[1 1 ", "]"), ("[", " 1 1]"), ("[1 ", " 1]"), ("[\"true\" ", "]")];
    ctx.space("value-spellings", ns * 11 * 7 * 4, "225 ways of writing a value, in 7 forms, after every type, 4 contexts", |i, loc| {
        let d = digits(i, &[ns, 11, 7, 4]);
        conform(&format!("{}{} a\" {}{}{}{}", C[d[3]].0, PTYPES[d[1]], FORM[d[2]].0, sp[d[0]], FORM[d[2]].1, C[d[3]].1), R, loc)
    });
    ctx.space("value-spelling-pairs", ns * ns * 11, "every pair of them after every type", |i, loc| {
        let d = digits(i, &[ns, ns, 11]);
        conform(&format!("{}{} a\" [{} {}]{}", C[1].0, PTYPES[d[2]], sp[d[0]], sp[d[1]], C[1].1), R, loc)
    });
    // longer values over a smaller alphabet: arity in the presence of a stray token
    const V2: &[&str] = &["[", "]", "1", "\"s\""];
    let l = if ctx.thorough { 9 } else { 7 };
    let n = nwords(4, l);
    ctx.space("long-value-words", n * 11 * 2, "all value token sequences up to length 7 (9) over [ ] 1 \"s\" after each type, 2 contexts", |i, loc| {
        let d = digits(i, &[n, 11, 2]);
        let mut w = vec![];
        word(d[0] as u64, 4, &mut w);
        let mut t = format!("{}{} a\"", C[d[2]].0, PTYPES[d[1]]);
        for c in w {
            t.push(' ');
            t.push_str(V2[c]);
        }
        t.push_str(C[d[2]].1);
        conform(&t, R, loc)
    });
    // arity: every length for every type, bracket forms, a stray item at every place
    let stray = ["", "\"s\"", "2.5", "Identity", "[", "]", "\"true\""];
    ctx.space("arity", 11 * 41 * 41 * 7 * 2, "lists of 0..40 items of every type with a stray token at every place", |i, loc| {
        let d = digits(i, &[11, 41, 41, 7, 2]);
        if d[2] > d[1] {
            return Ok(());
        }
        let it = match PTYPES[d[0]] {
            "bool" => "\"false\"",
            "string" | "texture" => "\"v\"",
            _ => "1",
        };
        let mut v: Vec<&str> = vec![it; d[1]];
        v.insert(d[2], stray[d[3]]);
        conform(&format!("{}{} a\" [{}]{}", C[d[4]].0, PTYPES[d[0]], v.join(" "), C[d[4]].1), R, loc)
    });
    // the brackets of a list of every length
    const OPEN: &[&str] = &["[", "", "[[", "] [", "[]", "[ #[\n"];
    const CLOSE: &[&str] = &["]", "", "]]", "[", "[]", "] 1", "] \"s\"", "\"float b\" 1", "\"float b\" [1]", "] \"float b\" 1", "] [1]", "Identity", "Shape \"s\"", "#]\n", "\"]\""];
    ctx.space("list-ends", 11 * 71 * 6 * 15 * 4, "lists of 0..70 items of every type with 6 ways to open and 15 ways to close, 4 contexts", |i, loc| {
        let d = digits(i, &[11, 71, 6, 15, 4]);
        let it = match PTYPES[d[0]] {
            "bool" => "\"false\" ",
            "string" | "texture" => "\"v\" ",
            _ => "1 ",
        };
        conform(&format!("{}{} a\" {} {} {}{}", C[d[4]].0, PTYPES[d[0]], OPEN[d[2]], it.repeat(d[1]), CLOSE[d[3]], C[d[4]].1), R, loc)
    });
    let sz = sizes(0, 16);
    ctx.space("long-arity", 11 * sz.len() as u64, "lists around every power of two up to 2^16 of every type", |i, loc| {
        let d = digits(i, &[11, sz.len() as u64]);
        let it = match PTYPES[d[0]] {
            "bool" => "\"false\" ",
            "string" | "texture" => "\"v\" ",
            _ => "1 ",
        };
        conform(&format!("{}{} a\" [{}]{}", C[1].0, PTYPES[d[0]], it.repeat(sz[d[1]] as usize), C[1].1), R, loc)
    });
    // a bad parameter among good ones, on every host
    let bad: Vec<String> = [
        "\"integer a\"", "\"integer a\" 1.5", "\"integer a\" \"x\"", "\"integer a\" []", "\"integer a\" [1 2.5]", "\"integer a\" [1", "\"integer a\" 1]", "\"float a\"", "\"float a\" []",
        "\"float a\" \"x\"", "\"float a\" [1 \"x\"]", "\"point2 a\" 1 2", "\"point2 a\" [1]", "\"point2 a\" [1 2 3]", "\"vector2 a\" [1 2 3]", "\"vector2 a\"", "\"bool a\" true", "\"bool a\" \"yes\"",
        "\"bool a\" [\"true\" \"no\"]", "\"bool a\" 1", "\"bool a\" \"True\"", "\"bool a\" \"TRUE\"", "\"bool a\" \"false \"", "\"string a\" 1", "\"string a\"", "\"string a\" []", "\"string a\" [\"x\" 1]", "\"rgb a\" [1 2]", "\"rgb a\" [1 2 3 4]", "\"rgb a\" 1 2 3", "\"rgb a\" 1", "\"rgb a\"",
        "\"xyz a\" [1 2]", "\"xyz a\" [1 2 3 4]", "\"xyz a\" [1 2 3", "\"spectrum a\" [1 2 3]", "\"spectrum a\" [1]", "\"spectrum a\" []", "\"spectrum a\" 1", "\"spectrum a\"", "\"spectrum a\" [\"f\"]", "\"blackbody a\" [1]", "\"blackbody a\" [1 2 3]",
        "\"blackbody a\" 1 2", "\"blackbody a\" 5500", "\"texture a\"", "\"texture a\" 1", "\"texture a\" [\"t\"]", "\"unknown a\" 1", "\"float\" 1", "\"float a b\" 1", "\"\" 1", "5", "[1]", "]", "[",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let np = NPARAM as u64;
    ctx.space("bad-among-good", HOSTS.len() as u64 * bad.len() as u64 * (np + 1) * (np + 1), "55 malformed parameters on every host, after and before each of 22 well-formed forms or none", |i, loc| {
        let d = digits(i, &[HOSTS.len() as u64, bad.len() as u64, np + 1, np + 1]);
        let (h, w) = HOSTS[d[0]];
        let (a, z) = around(w);
        let good = |k: usize, u: usize| if k == 0 { String::new() } else { param(k - 1, u) };
        conform(&format!("{}{} {} {} {}{}", a, h, good(d[2], 1), bad[d[1]], good(d[3], 2), z), R, loc)
    });
}

// ------------------------------------------------------------------ C09
fn c09(ctx: &'static Ctx) {
    let rule = Rule { proj: Proj::NoPos, ..FULL };
    let l = if ctx.thorough { 6 } else { 5 };
    let n = nwords(NPRE as u64, l);
    ctx.space("sequences", n, "all sequences of up to 5 (6) of the 18 kinds of pre-world directive", |i, loc| {
        let mut w = vec![];
        word(i, NPRE as u64, &mut w);
        let v: Vec<String> = w.iter().enumerate().map(|(i, k)| pre_item(*k, i + 1)).collect();
        let t = format!("{} WorldBegin WorldEnd", v.join(" "));
        loc.sample(|| t.clone());
        conform(&t, rule, loc)
    });
    // argument counts
    let follow = [" WorldBegin WorldEnd", " Identity WorldBegin WorldEnd", "", " \"s\" WorldBegin WorldEnd", " [ WorldBegin WorldEnd", " ] WorldBegin WorldEnd", " Translate 1 2 3 WorldBegin WorldEnd", " Foo WorldBegin WorldEnd"];
    // directives equal to one another
    let n = nwords(NPRE as u64, 4);
    ctx.space("equal-items", n, "all sequences of up to 4 of the 18 kinds, equal ones of a kind written alike", |i, loc| {
        let mut w = vec![];
        word(i, NPRE as u64, &mut w);
        let b = w.iter().map(|k| pre_item(*k, 1)).collect::<Vec<_>>().join(" ");
        conform(&format!("{} WorldBegin WorldEnd", b), rule, loc)
    });
    ctx.space("argument-counts", 7 * 41 * 8 * 4, "0..40 numbers after each of 7 numeric directives, 4 spellings, 8 continuations", |i, loc| {
        let d = digits(i, &[7, 41, 8, 4]);
        let mut t = NUMERIC[d[0]].0.to_string();
        for k in 0..d[1] {
            t.push(' ');
            t.push_str(&match d[3] {
                0 => format!("{}", k + 1),
                1 => format!("{}.5", k),
                2 => format!("-{}e{}", k, k % 3),
                _ => if k % 2 == 0 { format!("{}", k) } else { format!(".{}", k) },
            });
        }
        t.push_str(follow[d[2]]);
        conform(&t, rule, loc)
    });
    // spelling of each argument, up to two departures
    let sp = ["-1", "+3", "2.5", ".5", "4e2", "1e-2", "0", "-0.0", "1e30", "16777217"];
    let cases: Vec<(usize, usize, usize)> = (0..7).flat_map(|k| (0..NUMERIC[k].1).flat_map(move |a| (a..NUMERIC[k].1).map(move |b| (k, a, b)))).collect();
    ctx.space("argument-spellings", cases.len() as u64 * 100, "every numeric directive with every pair of arguments in each of 10 spellings", |i, loc| {
        let d = digits(i, &[cases.len() as u64, 10, 10]);
        let (k, a, b) = cases[d[0]];
        let mut t = NUMERIC[k].0.to_string();
        for x in 0..NUMERIC[k].1 {
            t.push(' ');
            if x == a {
                t.push_str(sp[d[1]])
            } else if x == b {
                t.push_str(sp[d[2]])
            } else {
                t.push_str(&format!("{}", x + 11))
            }
        }
        conform(&format!("{} WorldBegin WorldEnd", t), rule, loc)
    });
    // every argument a different value: order
    ctx.space("argument-values", 7 * 9 * 512, "every numeric directive with each argument in turn swept over 512 values", |i, loc| {
        let d = digits(i, &[7, 9, 512]);
        if d[1] >= NUMERIC[d[0]].1 {
            return Ok(());
        }
        let mut t = NUMERIC[d[0]].0.to_string();
        for x in 0..NUMERIC[d[0]].1 {
            t.push_str(&if x == d[1] { format!(" {}", (d[2] as i64 - 256) as f64 * 0.5) } else { format!(" {}", 1000 + x) });
        }
        conform(&format!("Identity {} Identity WorldBegin WorldEnd", t), rule, loc)
    });
    let nums = numerals();
    let nn = nums.len() as u64;
    ctx.space("argument-numerals", 7 * 9 * nn, "every numeric directive with each argument in turn written as each of 1105 numerals", |i, loc| {
        let d = digits(i, &[7, 9, nn]);
        if d[1] >= NUMERIC[d[0]].1 {
            return Ok(());
        }
        let mut t = NUMERIC[d[0]].0.to_string();
        for x in 0..NUMERIC[d[0]].1 {
            t.push(' ');
            t.push_str(&if x == d[1] { nums[d[2]].clone() } else { format!("{}", 10 + x) });
        }
        conform(&format!("{} Film \"f\" WorldBegin WorldEnd", t), rule, loc)
    });
    // all arguments at once from a few values: zero vectors, unit axes, whole matrices
    let vals = ["0", "1", "-1", "90", "360", "1e-9", "0.5"];
    let tuples: Vec<(usize, u64, u64)> = (0..7).map(|k| { let a = NUMERIC[k].1 as u32; let b: u64 = if a > 4 { if ctx.thorough { 4 } else { 3 } } else { 7 }; (k, b, b.pow(a)) }).collect();
    ctx.space("argument-tuples", tuples.iter().map(|t| t.2).sum(), "every numeric directive with all tuples of arguments over 7 values (matrices: 0, 1, -1 (and 90))", |mut i, loc| {
        for (k, b, n) in &tuples {
            if i < *n {
                let mut t = NUMERIC[*k].0.to_string();
                for _ in 0..NUMERIC[*k].1 {
                    t.push(' ');
                    t.push_str(vals[(i % b) as usize]);
                    i /= b;
                }
                return conform(&format!("{} Film \"f\" WorldBegin WorldEnd", t), rule, loc);
            }
            i -= n;
        }
        Ok(())
    });
    // types of real scene files
    let nt = dict::TYPES.len() as u64;
    ctx.space("real-types", nt * nt * 8, "every pair of 98 types of real scene files on consecutive options", |i, loc| {
        let d = digits(i, &[nt, nt, 8]);
        let o = |k: usize| ["Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator", "CoordinateSystem", "CoordSysTransform"][k % 8];
        conform(&format!("{} \"{}\" {} \"{}\" Identity WorldBegin WorldEnd", o(d[2]), dict::TYPES[d[0]], o(d[2] + d[0]), dict::TYPES[d[1]]), rule, loc)
    });
    // required argument of the wrong kind
    const A: &[&str] = &["\"s\"", "1", "2.5", "All", "[", "]", "WorldBegin", "Identity", "\"float a\""];
    let n = nwords(9, if ctx.thorough { 5 } else { 4 });
    ctx.space("argument-kinds", n * NPRE as u64 * 2, "every pre-world directive name followed by all token sequences up to length 4 (5) over 9 tokens", |i, loc| {
        let d = digits(i, &[n, NPRE as u64, 2]);
        let name = pre_item(d[1], 1);
        let name = name.split(' ').next().unwrap();
        let mut w = vec![];
        word(d[0] as u64, 9, &mut w);
        let mut t = name.to_string();
        for c in w {
            t.push(' ');
            t.push_str(A[c]);
        }
        t.push_str([" WorldBegin WorldEnd", " WorldEnd"][d[2]]);
        conform(&t, rule, loc)
    });
    let sz = sizes(300, 16);
    ctx.space("counts", sz.len() as u64 * NPRE as u64, "0..300 and up to 2^16 pre-world directives of every kind", |i, loc| {
        let d = digits(i, &[sz.len() as u64, NPRE as u64]);
        let v: Vec<String> = (0..sz[d[0]] as usize).map(|i| pre_item(d[1], i)).collect();
        conform(&format!("{} Film \"last\" WorldBegin WorldEnd", v.join(" ")), rule, loc)
    });
    // options with parameters of every form
    let np = NPARAM as u64;
    ctx.space("option-params", 6 * (np + 1) * (np + 1) * 3, "each option with up to two of 22 parameter forms, then a directive of another kind", |i, loc| {
        let d = digits(i, &[6, np + 1, np + 1, 3]);
        let g = |k: usize, u: usize| if k == 0 { String::new() } else { param(k - 1, u) };
        conform(&format!("{} \"ty\" {} {} {} WorldBegin WorldEnd", OPTIONS[d[0]], g(d[1], 1), g(d[2], 2), ["", "Scale 1 2 3", "Film \"x\""][d[3]]), rule, loc)
    });
    // strings a directive might be tempted to interpret
    let strs: Vec<&str> = dict::PATHS.iter().chain(dict::TYPES).cloned().collect();
    let ns = strs.len() as u64;
    ctx.space("string-arguments", ns * 9 * 6 * 3, "every directive that takes a string with each of 200 real names, types and paths, 6 decorations, 3 continuations", |i, loc| {
        let d = digits(i, &[ns, 9, 6, 3]);
        let name = ["Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator", "CoordinateSystem", "CoordSysTransform", "Include"][d[1]];
        let s = decorated(strs[d[0]], d[2]);
        conform(&format!("Identity {} \"{}\"{} WorldBegin WorldEnd", name, s, ["", " Film \"f\"", " CoordSysTransform \"b\""][d[3]]), rule, loc)
    });
    // identifiers an active-transform directive might be tempted to interpret
    let mut ids: Vec<String> = vec![];
    for w in ["All", "StartTime", "EndTime", "Start", "End", "None", "Time", "Both"] {
        let n = w.len();
        for m in 0..1u32 << n {
            ids.push(w.chars().enumerate().map(|(k, c)| if m >> k & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
        }
        for x in strs.iter().filter(|x| x.chars().all(char::is_alphanumeric)) {
            ids.push(format!("{}{}", w, x));
        }
    }
    ids.extend(strs.iter().map(|s| s.to_string()));
    let ni = ids.len() as u64;
    ctx.space("active-words", ni * 4, "ActiveTransform with All, StartTime, EndTime and 5 more words in every mixture of cases, continued by and replaced by 200 real words, 4 continuations", |i, loc| {
        let d = digits(i, &[ni, 4]);
        conform(&format!("ActiveTransform {}{} WorldBegin WorldEnd", ids[d[0]], ["", " Identity", " Film \"f\"", " ActiveTransform All"][d[1]]), rule, loc)
    });
    ctx.space("active-identifiers", NSCALAR, "every Unicode scalar value inside the identifier of an active-transform directive", |i, loc| {
        conform(&format!("ActiveTransform a{}b WorldBegin WorldEnd", scalar(i)), rule, loc)
    });
}

/// a string with something about it that a careless normalisation would lose
fn decorated(s: &str, k: usize) -> String {
    match k {
        0 => s.to_string(),
        1 => format!(" {}", s),
        2 => format!("{} ", s),
        3 => s.to_uppercase(),
        4 => format!("{}\n", s),
        _ => format!("\t{}  {}", s, s),
    }
}

// ------------------------------------------------------------------ C10
fn c10(ctx: &'static Ctx) {
    const R: Rule = Rule { proj: Proj::Shape, must_accept: false, must_refuse: true, compare: false };
    const EXTRA: &[&str] = &[
        "", "AttributeBegin AttributeEnd", "AttributeBegin Shape \"s\" AttributeEnd", "TransformBegin AttributeBegin AttributeEnd TransformEnd", "WorldBegin WorldEnd", "Shape \"a\\\"b\" # WorldEnd\n", "Material \"WorldEnd\"",
    ];
    let nw = NLEAF + NPARAM + EXTRA.len();
    let world = |k: usize, u: usize| -> String {
        if k < NLEAF {
            leaf_item(k, u)
        } else if k < NLEAF + NPARAM {
            format!("Shape \"s\" {}", param(k - NLEAF, u))
        } else {
            EXTRA[k - NLEAF - NPARAM].to_string()
        }
    };
    let pre2 = if ctx.thorough { NPRE + 1 } else { 1 };
    let size = (NPRE + 1) as u64 * pre2 as u64 * (nw * nw) as u64;
    ctx.space("cuts", size * 2, "every character cut of every scene of up to 1 (2) of 18 pre-world and 2 of 35 world items, 2 layouts", |i, loc| {
        let d = digits(i, &[NPRE as u64 + 1, pre2 as u64, nw as u64, nw as u64, 2]);
        let mut v: Vec<String> = vec![];
        for (u, k) in [d[0], d[1]].iter().enumerate() {
            if *k > 0 {
                v.push(pre_item(k - 1, u + 1));
            }
        }
        v.push("WorldBegin".into());
        v.push(world(d[2], 3));
        v.push(world(d[3], 4));
        v.push("WorldEnd".into());
        let t = join(&v, d[4]);
        loc.sample(|| t.clone());
        // the cut points matter only up to where the layout differs: every one is run
        for (p, _) in t.char_indices() {
            // quick: cuts inside the pre-world part are the same for all worlds; run them once
            if p > 0 && !ctx.thorough && p + 1 < t.find("WorldBegin").unwrap_or(0) && (d[2] > 0 || d[3] > 0) {
                continue;
            }
            conform(&t[..p], R, loc)?;
        }
        Ok(())
    });
    // deeper trees, cut everywhere
    let depth = if ctx.thorough { 6 } else { 5 };
    let n = nwords(5, depth);
    ctx.space("tree-cuts", n, "every character cut of every properly closed tree with up to 5 (6) begins, ends and leaves", |i, loc| {
        const E: &[&str] = &["AttributeBegin", "TransformBegin", "AttributeEnd", "TransformEnd", "Shape \"s\" \"float r\" [1]"];
        let mut w = vec![];
        word(i, 5, &mut w);
        let t = std::iter::once("WorldBegin").chain(w.iter().map(|c| E[*c])).collect::<Vec<_>>().join(" ");
        let m = pda_of(&t);
        if m.dead() {
            return Ok(());
        }
        let t = format!("{} {}", t, m.closers().join(" "));
        let from = if w.is_empty() { 0 } else { t.len() - m.closers().join(" ").len() - E[*w.last().unwrap()].len().min(30) - 1 };
        for p in from..t.len() {
            if t.is_char_boundary(p) {
                conform(&t[..p], R, loc)?;
            }
        }
        Ok(())
    });
    // large scenes: every cut between, and next to, their parts
    const PART: &[(&str, &str, &str)] = &[
        ("WorldBegin ", "Shape \"s\" ", "WorldEnd"),
        ("WorldBegin Shape \"s\" ", "\"float a\" 1 ", "WorldEnd"),
        ("WorldBegin Shape \"s\" \"float a\" [", "1 ", "] WorldEnd"),
        ("WorldBegin ", "AttributeBegin AttributeEnd ", "WorldEnd"),
        ("WorldBegin ", "# c\n", "WorldEnd"),
        ("", "Identity ", "WorldBegin WorldEnd"),
        ("WorldBegin Shape \"", "abcd ", "\" WorldEnd"),
        ("WorldBegin ", "Include \"i\"\n", "WorldEnd"),
    ];
    let big: u64 = if ctx.thorough { 3000 } else { 600 };
    ctx.space("large-cuts", PART.len() as u64 * big, "scenes of 600 (3000) equal parts cut after any number of them and at the last characters before the end", |i, loc| {
        let (k, n) = ((i / big) as usize, (i % big) as usize);
        let (a, b, z) = PART[k];
        let t = format!("{}{}", a, b.repeat(n));
        conform(&t, R, loc)?;
        conform(t.trim_end(), R, loc)?;
        for p in 1..z.len() {
            conform(&format!("{}{}", t, &z[..p]), R, loc)?;
        }
        Ok(())
    });
    for (bi, b) in bases().into_iter().enumerate() {
        for ly in 0..3 {
            let t = join(&b, ly);
            let n = t.len() as u64;
            ctx.space(&format!("base-{}-{}", bi, ly), n, "every cut of a base scene, optionally followed by blanks, a comment or line ends", |i, loc| {
                if !t.is_char_boundary(i as usize) {
                    return Ok(());
                }
                let s = &t[..i as usize];
                for tail in ["", " ", "\n", "\r\n", "# WorldEnd", "\t \n"] {
                    conform(&format!("{}{}", s, tail), R, loc)?;
                }
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ C11
fn history_texts() -> Vec<String> {
    let b = bases();
    let mut v: Vec<String> = vec![
        join(&b[0], 1),
        join(&b[1], 0),
        "WorldBegin WorldEnd".into(),
        "WorldBegin AttributeBegin Shape \"s\" \"float r\" [1 2 3]".into(),
        "Film \"f\" \"integer a\" [1 2".into(),
        "Film \"unterminated".into(),
        "Film \"f\" \"rgb a\" [1 2] WorldBegin WorldEnd".into(),
        "Translate 1 2 WorldBegin WorldEnd".into(),
        "\n\n\n   Identity\nActiveTransform All WorldBegin Shape \"x\" \"bool b\" [\"true\" \"false\"] \"string q\" \"é\" WorldEnd".into(),
        "Scale 1e3 2e-3 .5 # c\nTexture".into(),
        "".into(),
        "@".into(),
    ];
    // large ones: many tokens, long lists and strings, deep nesting; the last is cut short
    v.push(format!("{}WorldBegin WorldEnd", "Identity ".repeat(5000)));
    v.push(format!("Film \"{}\" \"float l\" [{}] WorldBegin Shape \"s\" WorldEnd", "é".repeat(70_000), "1.5 ".repeat(9000)));
    v.push(format!("WorldBegin {}{}", "AttributeBegin ".repeat(300), "AttributeEnd ".repeat(300)));
    assert_eq!(v.len(), NHIST);
    // texts that are easily taken for one another: equal up to white space,
    // comments, case, one character, order, a common start or a common end
    let long = "Identity ".repeat(40);
    for t in [
        "WorldBegin Shape \"a b\" WorldEnd",
        "WorldBegin Shape \"a  b\" WorldEnd",
        "WorldBegin Shape \"a\tb\" WorldEnd",
        "WorldBegin Shape \"a\nb\" WorldEnd",
        "WorldBegin Shape \"ab\" WorldEnd",
        "WorldBegin Shape \" a b \" WorldEnd",
        "WorldBegin Shape \"A b\" WorldEnd",
        "WorldBegin Shape \"b a\" WorldEnd",
        "WorldBegin Shape \"a c\" WorldEnd",
        "WorldBegin Shape \"a\\ b\" WorldEnd",
        "WorldBegin Shape \"a#b\" WorldEnd",
        "WorldBegin Shape \"é b\" WorldEnd",
        "WorldBegin Shape \"e b\" WorldEnd",
        "WorldBegin\nShape\n\"a b\"\nWorldEnd",
        "\nWorldBegin Shape \"a b\" WorldEnd",
        "  WorldBegin Shape \"a b\" WorldEnd",
        "WorldBegin  Shape  \"a b\"  WorldEnd",
        "WorldBegin Shape \"a b\" WorldEnd\n",
        "# c\nWorldBegin Shape \"a b\" WorldEnd",
        "WorldBegin # c\nShape \"a b\" WorldEnd",
        "WorldBegin\r\nShape \"a b\" WorldEnd",
        "WorldBegin Shape \"a b\"",
        "WorldBegin Shape \"a b\" worldend",
        "WorldBegin Shape \"a b\" Shape \"a b\" WorldEnd",
        "WorldBegin Material \"a b\" WorldEnd",
        "WorldBegin Shape \"s\" \"float x\" [1] WorldEnd",
        "WorldBegin Shape \"s\" \"float x\" [2] WorldEnd",
        "WorldBegin Shape \"s\" \"float x\" [1.0] WorldEnd",
        "WorldBegin Shape \"s\" \"float x\" [-1] WorldEnd",
        "WorldBegin Shape \"s\" \"float y\" [1] WorldEnd",
        "WorldBegin Shape \"s\" \"integer x\" [1] WorldEnd",
        "WorldBegin Shape \"s\" \"float x\" [1 1] WorldEnd",
        "WorldBegin Shape \"s\" \"float x\" [11] WorldEnd",
        "WorldBegin Shape \"s\" \"float x\" 1 WorldEnd",
        "WorldBegin Shape \"s\" \"floa x\" [1] WorldEnd",
        "WorldBegin AttributeBegin AttributeEnd WorldEnd",
        "WorldBegin AttributeBegin TransformEnd WorldEnd",
        "WorldBegin TransformBegin TransformEnd WorldEnd",
        "WorldBegin ObjectBegin \"a\" ObjectEnd WorldEnd",
        "Translate 1 2 3 WorldBegin WorldEnd",
        "Translate 3 2 1 WorldBegin WorldEnd",
        "Scale 1 2 3 WorldBegin WorldEnd",
        "Translate 1 23 WorldBegin WorldEnd",
        "Translate 12 3 WorldBegin WorldEnd",
    ] {
        v.push(t.to_string());
    }
    for tail in ["WorldBegin WorldEnd", "WorldBegin Shape \"s\" WorldEnd", "WorldBegin Shape \"t\" WorldEnd", "WorldBegin", "Foo", "\nWorldBegin WorldEnd"] {
        v.push(format!("{}{}", long, tail));
    }
    for head in ["Scale 1 2 3 ", "Scale 1 2 4 ", "Scale 1 2 ", "\n"] {
        v.push(format!("{}{}WorldBegin WorldEnd", head, long));
    }
    v
}
const NHIST: usize = 15;
/// spec: comma-separated "thread.text" calls; prints one result per line
pub fn history_child(spec: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let texts = history_texts();
    let mut chans = vec![];
    for _ in 0..2 {
        let (tx, rx) = std::sync::mpsc::channel::<String>();
        let (tx2, rx2) = std::sync::mpsc::channel::<Out>();
        std::thread::spawn(move || {
            for t in rx {
                tx2.send(run_quiet(&t)).unwrap();
            }
        });
        chans.push((tx, rx2));
    }
    for call in spec.split(',') {
        let (th, tx) = call.split_once('.').unwrap();
        if let Some(n) = tx.strip_prefix('g') {
            // that many different texts; only their number matters
            for i in 0..n.parse::<usize>().unwrap() {
                let c = &chans[th.parse::<usize>().unwrap()];
                c.0.send(format!("Film \"f{}\" \"float p{}\" [{} 2] WorldBegin Shape \"s{}\" {}", i, i % 7, i, i, if i % 3 == 0 { "" } else { "WorldEnd" })).unwrap();
                c.1.recv().unwrap();
            }
            continue;
        }
        let (times, tx) = tx.split_once('x').map(|(a, b)| (b.parse::<usize>().unwrap(), a)).unwrap_or((1, tx));
        let t = &match tx.as_bytes()[0] {
            k @ b'a'..=b'f' => sized_text(k - b'a', tx[1..].parse().unwrap()),
            _ => texts[tx.parse::<usize>().unwrap()].clone(),
        };
        for _ in 0..times {
            let c = &chans[th.parse::<usize>().unwrap()];
            c.0.send(t.clone()).unwrap();
            println!("{}", digest(&c.1.recv().unwrap()));
        }
    }
}
/// texts of every length: siblings, parameters, values, depth, comments, pre-world directives
fn sized_text(kind: u8, n: usize) -> String {
    match kind {
        0 => format!("WorldBegin {}WorldEnd", "Shape \"s\" ".repeat(n)),
        1 => format!("WorldBegin {}Shape \"s\" {}WorldEnd", "AttributeBegin ".repeat(n), "AttributeEnd ".repeat(n)),
        2 => format!("Film \"f\" {}WorldBegin WorldEnd", "\"float a\" 1 ".repeat(n)),
        3 => format!("Film \"f\" \"integer a\" [{}] WorldBegin WorldEnd", "7 ".repeat(n)),
        4 => format!("{}WorldBegin WorldEnd", "Translate 1 2 3 ".repeat(n)),
        _ => format!("WorldBegin {}Shape {}", "TransformBegin ".repeat(n), n),
    }
}
/// one line for a result; long ones by length and hash
fn digest(o: &Out) -> String {
    let s = format!("{:?}", format!("{:?}", o));
    if s.len() > 2000 {
        let cut = (0..=200).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        format!("{}... {} bytes, hash {:x}", &s[..cut], s.len(), fw::hash_bytes(s.as_bytes()))
    } else {
        s
    }
}
fn spawn_history(spec: &str) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(exe).arg("--history").arg(spec).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("process died: {:?}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
}
fn c11(ctx: &'static Ctx) {
    let texts = history_texts();
    let nall = texts.len() as u64;
    let nt = NHIST as u64;
    let fresh: Vec<String> = (0..nall)
        .map(|i| match spawn_history(&format!("0.{}", i)) {
            Ok(v) if v.len() == 1 => v[0].clone(),
            r => format!("<{:?}>", r),
        })
        .collect();
    let judge = |calls: Vec<(usize, usize, usize)>, loc: &mut Local| -> Res {
        let spec = calls.iter().map(|(t, x, n)| if *n == 1 { format!("{}.{}", t, x) } else { format!("{}.{}x{}", t, x, n) }).collect::<Vec<_>>().join(",");
        loc.note(&spec);
        loc.execs += calls.iter().map(|c| c.2 as u64).sum::<u64>();
        let mut s = 0;
        for c in &calls {
            let s2 = fw::mix(s, (c.0 * 100 + c.1 + c.2 * 10000) as u64);
            loc.state(s2);
            loc.tran(s, 1, s2);
            s = s2;
        }
        loc.sample(|| spec.clone());
        match spawn_history(&spec) {
            Err(e) => Err(viol(e, &spec)),
            Ok(v) => {
                let want: Vec<&String> = calls.iter().flat_map(|(_, x, n)| std::iter::repeat(&fresh[*x]).take(*n)).collect();
                if v.len() != want.len() {
                    return Err(viol(format!("{} results for {} calls", v.len(), want.len()), &spec));
                }
                for (i, (a, b)) in v.iter().zip(want).enumerate() {
                    loc.outcome(fw::hash_bytes(a.as_bytes()));
                    if a != b {
                        return Err(viol(format!("call {} of history {} gave {} but a fresh process gives {}", i, spec, a, b), &spec));
                    }
                }
                Ok(())
            }
        }
    };
    let l = if ctx.thorough { 4 } else { 3 };
    let n = nwords(nt, l);
    ctx.space("one-thread", n, "all call sequences up to length 3 (4) over 15 texts, each in a fresh process", |i, loc| {
        let mut w = vec![];
        word(i, nt, &mut w);
        if w.is_empty() {
            return Ok(());
        }
        judge(w.iter().map(|x| (0, *x, 1)).collect(), loc)
    });
    ctx.space("look-alikes", nall * nall, "all ordered pairs of 69 texts, most of them equal up to white space, case, order, one character, a common start or end; the first again at last, on a second thread", |i, loc| {
        let (a, b) = ((i / nall) as usize, (i % nall) as usize);
        judge(vec![(0, a, 1), (0, b, 1), (1, a, 1)], loc)
    });
    if ctx.thorough {
        ctx.space("look-alikes-3", nall * nall * nall, "all sequences of 3 of 69 texts", |i, loc| {
            let d = digits(i, &[nall, nall, nall]);
            judge(d.iter().map(|x| (0, *x, 1)).collect(), loc)
        });
    }
    let l = if ctx.thorough { 3 } else { 2 };
    let n = nwords(2 * nt, l);
    ctx.space("two-threads", n, "all call sequences up to length 2 (3) over 15 texts and two threads", |i, loc| {
        let mut w = vec![];
        word(i, 2 * nt, &mut w);
        if w.is_empty() {
            return Ok(());
        }
        judge(w.iter().map(|x| (x / nt as usize, x % nt as usize, 1)).collect(), loc)
    });
    // texts of every pair of sizes
    let big = if ctx.thorough { 160u64 } else { 70 };
    let sized: Vec<String> = (0..6 * big).map(|i| match spawn_history(&format!("0.{}{}", (b'a' + (i / big) as u8) as char, i % big)) {
        Ok(v) if v.len() == 1 => v[0].clone(),
        r => format!("<{:?}>", r),
    }).collect();
    ctx.space("size-pairs", big * big * 36, "all ordered pairs of texts of 0..69 (0..159) siblings, nested blocks, parameters, values, pre-world directives and unclosed blocks, the first again at last", |i, loc| {
        let d = digits(i, &[6 * big, 6 * big]);
        if !ctx.thorough && d[0] / big as usize != d[1] / big as usize && (d[0] % 7 != 0 || d[1] % 3 != 0) {
            return Ok(()); // quick: different kinds at a coarser grid
        }
        let key = |x: usize| format!("0.{}{}", (b'a' + (x / big as usize) as u8) as char, x % big as usize);
        let spec = format!("{},{},{}", key(d[0]), key(d[1]), key(d[0]));
        loc.note(&spec);
        loc.execs += 3;
        match spawn_history(&spec) {
            Err(e) => Err(viol(e, &spec)),
            Ok(v) => {
                for (r, x) in v.iter().zip([d[0], d[1], d[0]]) {
                    if *r != sized[x] {
                        return Err(viol(format!("history {} gives {}, a fresh process {}", spec, r, sized[x]), &spec));
                    }
                }
                if v.len() != 3 { Err(viol("results are missing", &spec)) } else { Ok(()) }
            }
        }
    });
    let reps = [2usize, 3, 10, 16, 17, 64, 100, 255, 256, 257, 1000, 1024, 5000];
    ctx.space("repeats", nt * nt * reps.len() as u64, "every text repeated up to 5000 times (large ones 17), then every other text", |i, loc| {
        let d = digits(i, &[nt, nt, reps.len() as u64]);
        if texts[d[0]].len() > 2000 && reps[d[2]] > 17 {
            return Ok(()); // large texts: up to 17 times
        }
        judge(vec![(0, d[0], reps[d[2]]), (0, d[1], 1), (1, d[0], 1)], loc)
    });
    ctx.space("many-repeats", nt * 4, "every short text 65537 and 66000 times, then another", |i, loc| {
        let d = digits(i, &[nt, 2, 2]);
        if texts[d[0]].len() > 150 {
            return Ok(());
        }
        judge(vec![(0, d[0], [65537, 66000][d[1]]), (0, [1, 4][d[2]], 1), (1, d[0], 1)], loc)
    });
    // many different texts first
    let counts: Vec<usize> = if ctx.thorough { (0..1100).chain([4095, 4096, 4097, 20000, 70000]).collect() } else { (0..40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10000, 32769, 66000]).collect() };
    ctx.space("after-many", counts.len() as u64 * nt, "every text after 0..39 and up to 66000 (0..1099, up to 70000) different others, then again", |i, loc| {
        let d = digits(i, &[counts.len() as u64, nt]);
        let x = d[1];
        let spec = format!("0.{},0.g{},0.{},1.{}", x, counts[d[0]], x, x);
        loc.note(&spec);
        loc.execs += counts[d[0]] as u64 + 3;
        match spawn_history(&spec) {
            Err(e) => Err(viol(e, &spec)),
            Ok(v) => {
                if v.len() != 3 || v.iter().any(|r| *r != fresh[x]) {
                    return Err(viol(format!("after {} other texts, text {} gives {:?}, a fresh process {}", counts[d[0]], x, v, fresh[x]), &spec));
                }
                Ok(())
            }
        }
    });
    // interleavings of two concurrent parses: every allocation and release of
    // the parser is a point at which the other thread may run
    let pair = |a: usize, b: usize, until: [u64; 2], loc: &mut Local| -> Result<(u64, u64), fw::Viol> {
        let what = || format!("texts {} and {} in two threads, switching at points {:?}: {:?} / {:?}", a, b, until, fw::short(&texts[a]), fw::short(&texts[b]));
        let s = fw::Sched::new(until);
        loc.execs += 2;
        let (ra, rb) = std::thread::scope(|sc| {
            let h = sc.spawn(|| s.run(1, || run_sched(&texts[b])));
            let ra = s.run(0, || run_sched(&texts[a]));
            (ra, h.join().expect("partner"))
        });
        loc.count("schedules", 1);
        if s.blocked.load(std::sync::atomic::Ordering::Relaxed) {
            loc.count("schedules not possible (a lock is held)", 1);
        }
        let st = |x: u64| fw::mix(x, fw::mix((a * 100 + b) as u64, fw::mix(until[0].min(1 << 20), until[1].min(1 << 20))));
        loc.state(st(1));
        loc.tran(st(1), 1, st(2));
        for (x, r) in [(a, &ra), (b, &rb)] {
            let got = digest(r);
            if got != fresh[x] {
                return Err(viol(format!("text {} gave {} but a fresh process gives {}", x, got, fresh[x]), &what()));
            }
        }
        Ok((s.points(0), s.points(1)))
    };
    const NEVER: u64 = u64::MAX;
    // all pairs: the second parse runs as a whole at every point of the first
    ctx.space("one-preemption", nall * nall, "all ordered pairs of 69 texts: the second parsed by another thread at every allocation or release of the first parse (quick: long first texts with half of the second texts; no first text above 2000 characters, few with such a second text)", |i, loc| {
        let (a, b) = ((i / nall) as usize, (i % nall) as usize);
        if !ctx.thorough && a != b && i % 2 == 1 && (a >= NHIST || b >= NHIST) && texts[a].len() > 200 || texts[a].len() > 2000 || !ctx.thorough && texts[b].len() > 2000 && a % 8 != 0 {
            return Ok(()); // quick: the long look-alikes against half of the others
        }
        let (na, _) = pair(a, b, [NEVER, NEVER], loc)?;
        for k in 0..na {
            pair(a, b, [k, NEVER], loc)?;
        }
        Ok(())
    });
    // two preemptions: first parse stopped at k, second stopped at j, the first finishes, the second finishes
    let short: Vec<usize> = if ctx.thorough { (0..texts.len()).filter(|i| texts[*i].len() < 120).collect() } else { vec![2, 4, 5, 7, 15, 29, 33] };
    let ns = short.len() as u64;
    ctx.space("two-preemptions", ns * ns, "all ordered pairs of 7 (all short) texts, switching at every pair of points of the two parses", |i, loc| {
        let (a, b) = (short[(i / ns) as usize], short[(i % ns) as usize]);
        let (na, nb) = pair(a, b, [NEVER, NEVER], loc)?;
        for k in 0..na {
            for j in 0..nb {
                pair(a, b, [k, j], loc)?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C12
/// (name, arguments that make it complete) for every directive name
fn vocabulary() -> Vec<(String, String)> {
    let mut v = vec![];
    for k in 0..NPRE {
        let s = pre_item(k, 1);
        let (a, b) = s.split_once(' ').unwrap_or((&s, ""));
        v.push((a.to_string(), b.to_string()));
    }
    for k in 0..NLEAF {
        let s = leaf_item(k, 1);
        let (a, b) = s.split_once(' ').unwrap();
        if a != "Include" {
            v.push((a.to_string(), b.to_string()));
        }
    }
    for b in BLOCKS {
        v.push((format!("{}Begin", b), format!("{}End", b)));
    }
    for b in BLOCKS {
        v.push((format!("{}End", b), String::new()));
    }
    v
}
fn c12(ctx: &'static Ctx) {
    const R: Rule = Rule { proj: Proj::Shape, must_accept: true, must_refuse: true, compare: true };
    const SEC: &[(&str, &str)] = &[
        ("", " WorldBegin WorldEnd"),
        ("WorldBegin ", " WorldEnd"),
        ("WorldBegin AttributeBegin ", " AttributeEnd WorldEnd"),
        ("WorldBegin TransformBegin ", " TransformEnd WorldEnd"),
        ("Identity ", " Film \"f\" WorldBegin Shape \"s\" WorldEnd"),
        ("WorldBegin Shape \"s\" \"float r\" 1 ", " Shape \"s\" WorldEnd"),
        ("Camera \"c\" \"float f\" 1 ", " WorldBegin WorldEnd"),
        ("Translate 1 2 3 ", " WorldBegin WorldEnd"),
    ];
    let voc = vocabulary();
    // names and all their one-character edits
    let mut edits: Vec<(usize, String)> = vec![];
    for (vi, (n, _)) in voc.iter().enumerate() {
        let c: Vec<char> = n.chars().collect();
        let mut e = vec![n.clone(), n.to_lowercase(), n.to_uppercase(), format!("{}{}", n, n), c.iter().rev().collect()];
        for i in 0..c.len() {
            let mut d = c.clone();
            d.remove(i);
            e.push(d.iter().collect());
            let mut d = c.clone();
            d[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
            e.push(d.iter().collect());
            for x in ['x', '1', 'é', 'S', 'E'] {
                let mut d = c.clone();
                d[i] = x;
                e.push(d.iter().collect());
                let mut d = c.clone();
                d.insert(i, x);
                e.push(d.iter().collect());
            }
            if i > 0 {
                let mut d = c.clone();
                d.swap(i, i - 1);
                e.push(d.iter().collect());
                e.push(c[..i].iter().collect());
                e.push(c[i..].iter().collect());
            }
        }
        for x in ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['²', 'é', 'ß']) {
            e.push(format!("{}{}", n, x));
            e.push(format!("{}{}", x, n));
        }
        for s in e {
            if !s.is_empty() {
                edits.push((vi, s));
            }
        }
    }
    // other names of the pbrt format that this implementation does not provide,
    // and plausible aliases
    let foreign = [
        "Begin", "End", "World", "Attribute", "Transforms", "ObjectBegin", "ObjectEnd", "ObjectInstance", "MakeNamedMaterial", "NamedMaterial", "MediumInterface", "MakeNamedMedium", "PixelFilter", "ReverseOrientation", "TransformBeginEnd",
        "ColorSpace", "Option", "Import", "Light", "AreaLight", "Textures", "Cameras", "Lookat", "lookAt", "Concat", "Rotation", "Renderer", "SurfaceIntegrator", "VolumeIntegrator", "SearchPath", "EndTime", "StartTime", "All", "include", "INCLUDE", "Attributebegin", "Worldbegin", "worldBegin",
    ];
    for (vi, _) in voc.iter().enumerate() {
        for f in foreign {
            edits.push((vi, f.to_string()));
        }
    }
    ctx.space("name-edits", edits.len() as u64 * SEC.len() as u64, "every name, every one-character edit, case change, prefix and suffix of it, with the arguments of the original, at 8 places", |i, loc| {
        let d = digits(i, &[edits.len() as u64, SEC.len() as u64]);
        let (vi, n) = &edits[d[0]];
        conform(&put(SEC, d[1], &format!("{} {}", n, voc[*vi].1)), R, loc)
    });
    // every name at every place
    let nv = voc.len() as u64;
    ctx.space("names-by-section", nv * nv * SEC.len() as u64, "every pair of directives at 8 places", |i, loc| {
        let d = digits(i, &[nv, nv, SEC.len() as u64]);
        let (a, b) = (&voc[d[0]], &voc[d[1]]);
        conform(&put(SEC, d[2], &format!("{} {} {} {}", a.0, a.1, b.0, b.1)), R, loc)
    });
    const A: &[char] = &['W', 'o', 'A', 'e', '1', 'é', 'S'];
    let n = nwords(7, 4);
    ctx.space("short-names", n * 4, "all words up to length 4 over 7 characters as a directive, 4 places", |i, loc| {
        let mut w = vec![];
        word(i % n, 7, &mut w);
        let b: String = w.iter().map(|c| A[*c]).collect();
        conform(&put(SEC, (i / n) as usize, &format!("{} \"s\"", b)), R, loc)
    });
    const T: &[&str] = &["Shape", "\"s\"", "1", "2.5", "[", "]", "Camera", "Include", "AttributeBegin", "AttributeEnd", "Texture", "\"float r\"", "Translate", "WorldBegin", "Identity", "ActiveTransform"];
    let l = if ctx.thorough { 6 } else { 5 };
    let n = nwords(16, l);
    ctx.space("token-words", n * 3, "all token sequences up to length 5 (6) over 16 tokens at 3 places", |i, loc| {
        let mut w = vec![];
        word(i % n, 16, &mut w);
        let b = w.iter().map(|c| T[*c]).collect::<Vec<_>>().join(" ");
        loc.sample(|| b.clone());
        conform(&put(SEC, (i / n) as usize, &b), R, loc)
    });
    // missing or surplus required strings
    ctx.space("required-strings", nv * 6 * SEC.len() as u64, "every name with 0..5 strings at 8 places", |i, loc| {
        let d = digits(i, &[nv, 6, SEC.len() as u64]);
        conform(&put(SEC, d[2], &format!("{}{}", voc[d[0]].0, " \"s\"".repeat(d[1]))), R, loc)
    });
    let np = NPARAM as u64;
    ctx.space("required-then-params", nv * 6 * (np + 1) * np * SEC.len() as u64, "every name with 0..5 strings, then one or two of 22 parameter forms, at 8 places", |i, loc| {
        let d = digits(i, &[np, np + 1, nv, 6, SEC.len() as u64]);
        let p = if d[1] == 0 { String::new() } else { param(d[1] - 1, 2) };
        conform(&put(SEC, d[4], &format!("{}{} {} {}", voc[d[2]].0, " \"s\"".repeat(d[3]), param(d[0], 1), p)), R, loc)
    });
    // letters of other scripts in place of each letter of each name
    let look: Vec<char> = ('0'..='z').chain('\u{80}'..='\u{24ff}').chain('\u{ff00}'..='\u{ffef}').chain('\u{1d400}'..='\u{1d7ff}').filter(|c| c.is_alphanumeric()).collect();
    let places: Vec<(usize, usize)> = (0..voc.len()).flat_map(|v| (0..voc[v].0.len()).map(move |k| (v, k))).collect();
    ctx.space("name-letters", (look.len() * places.len()) as u64, "every letter of every name replaced by each letter and digit of the first 9000 scalar values, the full-width and the mathematical forms, where the name belongs", |i, loc| {
        let d = digits(i, &[look.len() as u64, places.len() as u64]);
        let (v, k) = places[d[1]];
        let n = &voc[v].0;
        conform(&put(SEC, (v >= NPRE) as usize, &format!("{}{}{} {}", &n[..k], look[d[0]], &n[k + 1..], voc[v].1)), R, loc)
    });
    const GLUE: &[(&str, &str, usize)] = &[
        ("", "Shape \"s\"", 1), ("Shape", " \"s\"", 1), ("Sh", "ape \"s\"", 1), ("Sh", "pe \"s\"", 1),
        ("", "Film \"s\"", 0), ("Film", " \"s\"", 0), ("", "AttributeBegin AttributeEnd", 1), ("AttributeBegin AttributeEnd", "", 2),
    ];
    ctx.space("name-scalars", NSCALAR * GLUE.len() as u64, "every Unicode scalar value before, after, inside and in place of a letter of a directive name", |i, loc| {
        let g = GLUE[(i / NSCALAR) as usize];
        conform(&put(SEC, g.2, &format!("{}{}{}", g.0, scalar(i % NSCALAR), g.1)), R, loc)
    });
    ctx.space("first-scalar", NSCALAR * 2, "every Unicode scalar value where a directive is expected", |i, loc| {
        let c = scalar(i % NSCALAR);
        conform(&put(SEC, (i / NSCALAR) as usize, &format!("{} \"s\"", c)), R, loc)
    });
}

// ------------------------------------------------------------------ C13
fn c13(ctx: &'static Ctx) {
    const T: &[&str] = &["Shape", "\"s\"", "1", "2.5", "[", "]", "Camera", "AttributeBegin", "AttributeEnd", "\"float r\"", "\"rgb r\"", "\"point2 r\"", "\"spectrum r\"", "\"bool r\"", "Translate", "Foo", "\"integer r\""];
    const C: &[(&[&str], &[&str])] = &[
        (&["Identity"], &["WorldBegin", "WorldEnd"]),
        (&["Film", "\"f\"", "\"bool b\"", "\"true\"", "WorldBegin", "Shape", "\"z\""], &["Shape", "\"y\"", "WorldEnd"]),
        (&["WorldBegin", "AttributeBegin", "Texture", "\"a\"", "\"b\"", "\"c\"", "\"float q\"", "[", "1", "2", "]"], &["AttributeEnd", "WorldEnd"]),
        (&["Film", "\"f\"", "\"integer r\"", "["], &["]", "WorldBegin", "WorldEnd"]),
    ];
    let l = if ctx.thorough { 5 } else { 4 };
    let k = T.len() as u64;
    let n = nwords(k, l);
    ctx.space("token-words", n * 4 * 3, "all token sequences up to length 4 (5) over 17 tokens, 4 contexts, 3 layouts", |i, loc| {
        let d = digits(i, &[n, 4, 3]);
        let mut w = vec![];
        word(d[0] as u64, k, &mut w);
        let mut v: Vec<&str> = C[d[1]].0.to_vec();
        v.extend(w.iter().map(|c| T[*c]));
        v.extend(C[d[1]].1);
        let t = join(&v, d[2]);
        loc.sample(|| t.clone());
        error_points_at_fault(&t, loc)
    });
    // one token of a scene replaced, deleted or doubled, at every place
    let b = bases();
    let cases: Vec<(usize, usize)> = (0..b.len()).flat_map(|x| (0..b[x].len()).map(move |y| (x, y))).collect();
    ctx.space("token-edits", cases.len() as u64 * (k + 2) * 3, "every token of the base scenes replaced by each of 17 tokens, deleted or doubled, 3 layouts", |i, loc| {
        let d = digits(i, &[cases.len() as u64, k + 2, 3]);
        let (x, y) = cases[d[0]];
        let mut v: Vec<&str> = b[x].clone();
        match d[1] {
            e if e < k as usize => v[y] = T[e],
            e if e == k as usize => {
                v.remove(y);
            }
            _ => v.insert(y, v[y]),
        }
        error_points_at_fault(&join(&v, d[2]), loc)
    });
    let np = NPARAM as u64;
    ctx.space("params", np * 17 * 8 * 11, "each of 22 parameter forms with one token replaced by each of 17, on every host", |i, loc| {
        let d = digits(i, &[np, 17, 8, 11]);
        let p = param(d[0], 1);
        let toks: Vec<String> = match model::lex_opt(&p, None).toks {
            Ok(_) => {
                let mut v = vec![];
                let (h, rest) = p[1..].split_once('"').unwrap();
                v.push(format!("\"{}\"", h));
                let rest = rest.replace('[', " [ ").replace(']', " ] ");
                v.extend(rest.split_whitespace().map(|s| s.to_string()));
                v
            }
            Err(_) => return Ok(()),
        };
        if d[2] >= toks.len() {
            return Ok(());
        }
        let (h, w) = HOSTS[d[3]];
        let (a, z) = around(w);
        let mut v = vec![format!("{}{}", a, h)];
        v.extend(toks);
        v[d[2] + 1] = T[d[1]].to_string();
        v.push(z.trim().to_string());
        error_points_at_fault(&join(&v, (d[0] + d[1]) % 3), loc)
    });
    const A: &[char] = &['"', '\\', '#', '[', '-', '.', 'e', '1', 'a', ' ', '\n', '@', 'é', '²'];
    let l = if ctx.thorough { 7 } else { 6 };
    let n = nwords(14, l);
    ctx.space("lexical-words", n * 2, "all words up to length 6 (7) over 14 characters after a valid start, 2 contexts", |i, loc| {
        let mut w = vec![];
        word(i % n, 14, &mut w);
        let b: String = w.iter().map(|c| A[*c]).collect();
        let t = if i < n { format!("Identity\n {} WorldBegin", b) } else { format!("WorldBegin Shape \"s\" {}", b) };
        error_points_at_fault(&t, loc)
    });
    let sz = sizes(200, 17);
    ctx.space("extents", sz.len() as u64 * 8, "an error after 0..200 and up to 2^17 rows or columns", |i, loc| {
        let d = digits(i, &[sz.len() as u64, 4, 2]);
        let g = [" ", "\n", "#c\r\n", "\t"][d[1]].repeat(sz[d[0]] as usize);
        let t = if d[2] == 0 { format!("Identity {} Foo WorldBegin", g) } else { format!("WorldBegin {} Shape \"s\" \"float a\" {} \"x\" WorldEnd", g, g) };
        error_points_at_fault(&t, loc)
    });
}

