//! Alphabets and text builders.
use crate::model::{LEAVES, NUMERIC, OPTIONS};


/// number of kinds of pre-world directive
pub const NPRE: usize = 18;
/// a pre-world directive of kind k with arguments that identify it
pub fn pre_item(k: usize, id: usize) -> String {
    match k {
        0 => "Identity".into(),
        1..=7 => {
            let (n, c) = NUMERIC[k - 1];
            let mut s = n.to_string();
            for i in 0..c {
                match (i + id) % 3 {
                    0 => s.push_str(&format!(" {}", id * 16 + i)),
                    1 => s.push_str(&format!(" -{}.5", id * 16 + i)),
                    _ => s.push_str(&format!(" {}.25", id * 16 + i)),
                }
            }
            s
        }
        8 => format!("CoordinateSystem \"cs{}\"", id),
        9 => format!("CoordSysTransform \"ct{}\"", id),
        10 => format!("ActiveTransform At{}", id),
        11..=16 => format!("{} \"o{}\" \"float p{}\" {}.5", OPTIONS[k - 11], id, id, id),
        _ => format!("Include \"f{}.pbrt\"", id),
    }
}

/// number of kinds of leaf directive in the world
pub const NLEAF: usize = 6;
pub fn leaf_item(k: usize, id: usize) -> String {
    match k {
        0..=3 => format!("{} \"t{}\" \"integer p{}\" {}", LEAVES[k], id, id, id),
        4 => format!("Include \"w{}.pbrt\"", id),
        _ => format!("Texture \"n{}\" \"t{}\" \"c{}\" \"float s\" {}", id, id, id, id),
    }
}

/// directives that take parameters: (text before the parameters, in the world?)
pub const HOSTS: &[(&str, bool)] = &[
    ("Camera \"h\"", false),
    ("Sampler \"h\"", false),
    ("Film \"h\"", false),
    ("Filter \"h\"", false),
    ("Integrator \"h\"", false),
    ("Accelerator \"h\"", false),
    ("Material \"h\"", true),
    ("Shape \"h\"", true),
    ("LightSource \"h\"", true),
    ("AreaLightSource \"h\"", true),
    ("Texture \"h\" \"g\" \"i\"", true),
];
/// text around a host: (before, after)
pub fn around(world: bool) -> (&'static str, &'static str) {
    if world {
        ("WorldBegin ", " WorldEnd")
    } else {
        ("", " WorldBegin WorldEnd")
    }
}

pub const NPARAM: usize = 22;
/// a well-formed parameter of form k; `u` makes names and values unique
pub fn param(k: usize, u: usize) -> String {
    let nm = if k % 3 == 0 { "n".to_string() } else { format!("m{}", u) };
    let v = u * 10 + 1;
    match k {
        0 => format!("\"integer {}\" {}", nm, v),
        1 => format!("\"integer {}\" [{}]", nm, v),
        2 => format!("\"integer {}\" [{} -{} {}]", nm, v, v + 1, v + 2),
        3 => format!("\"float {}\" {}", nm, v),
        4 => format!("\"float {}\" -{}.5", nm, v),
        5 => format!("\"float {}\" [{} {}.5 -.25 1e2]", nm, v, v + 1),
        6 => format!("\"point2 {}\" [{} {}]", nm, v, v + 1),
        7 => format!("\"point2 {}\" [{} {} {}.5 {}]", nm, v, v + 1, v + 2, v + 3),
        8 => format!("\"vector2 {}\" [{} {}]", nm, v, v + 1),
        9 => format!("\"vector2 {}\" [{} {} {} {}.5 7 8]", nm, v, v + 1, v + 2, v + 3),
        10 => format!("\"bool {}\" \"{}\"", nm, if u % 2 == 0 { "true" } else { "false" }),
        11 => format!("\"bool {}\" [\"false\"]", nm),
        12 => format!("\"bool {}\" [\"true\" \"false\" \"false\"]", nm),
        13 => format!("\"string {}\" \"v{}\"", nm, v),
        14 => format!("\"string {}\" [\"v{}\" \"true\" \"w{}\"]", nm, v, v),
        15 => format!("\"rgb {}\" [{} .5 {}]", nm, v, v + 1),
        16 => format!("\"xyz {}\" [{} .5 {}]", nm, v, v + 1),
        17 => format!("\"spectrum {}\" [{} .5]", nm, v),
        18 => format!("\"spectrum {}\" [{} .5 {} .75 {} 1]", nm, v, v + 1, v + 2),
        19 => format!("\"spectrum {}\" \"s{}.spd\"", nm, v),
        20 => format!("\"blackbody {}\" [{} 1.5]", nm, v),
        _ => format!("\"texture {}\" \"tex{}\"", nm, v),
    }
}

/// sizes: everything small, then around every power of two up to 2^maxp
pub fn sizes(small: u64, maxp: u32) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=small).collect();
    for p in 1..=maxp {
        for d in [-1i64, 0, 1] {
            let n = (1i64 << p) + d;
            if n as u64 > small {
                v.push(n as u64);
            }
        }
    }
    v.push(100_000.min(1 << maxp));
    v.sort();
    v.dedup();
    v
}

/// separators: the first is the default
pub const SEPS: &[&str] = &[
    " ",
    "",
    "\n",
    "\t",
    "  ",
    "\r\n",
    "\r",
    "#c\n",
    " # \"x [ 1 \\ \n",
    "#\n",
    "\n\n#\u{e9}\u{1d11e}\n \n",
    "\u{a0}\u{2003}\x0b\x0c",
    "#x\r\n",
    "#one\n#two\r\n# three\n",
    "#eof",
];

/// base scenes as token lists
pub fn bases() -> Vec<Vec<&'static str>> {
    vec![
        // every kind of token next to every other kind that can follow it
        vec![
            "Include", "\"f\"", "Identity", "Translate", "1", "-2", "3.5", "ActiveTransform", "All", "Camera", "\"c\"",
            "\"float fov\"", "[", "45", "]", "\"bool b\"", "\"true\"", "WorldBegin", "Texture", "\"n\"", "\"t\"", "\"k\"",
            "\"rgb a\"", "[", ".1", ".2", ".3", "]", "AttributeBegin", "Shape", "\"s\"", "\"integer i\"", "5",
            "AttributeEnd", "TransformBegin", "TransformEnd", "Material", "\"m\"", "WorldEnd",
        ],
        // strings that span lines, hold escapes, comment signs and wide characters
        vec![
            "Film", "\"a\nb\"", "\"string s\"", "\"x#y\"", "\"integer\n j\"", "1e3", "Filter", "\"q\\\"\\n\\\\\"",
            "\"float w\"", "[", "+1", "-.5e-2", "]", "WorldBegin", "LightSource", "\"\u{e9}\u{1d11e}[\"", "\"texture t\"",
            "\"\"", "Include", "\"i\"", "WorldEnd",
        ],
        vec!["Rotate", "45", "0", "0", "1", "WorldBegin", "WorldEnd"],
        vec!["WorldBegin", "Shape", "\"s\"", "\"float r\"", "1", "Material", "\"m\"", "WorldEnd"],
        vec!["Sampler", "\"h\"", "\"point2 p\"", "[", "1", "2", "]", "WorldBegin", "WorldEnd"],
        vec!["WorldBegin", "AttributeBegin", "Shape", "\"s\"", "AttributeEnd", "Shape", "\"z\"", "WorldEnd"],
    ]
}

/// All ways of replacing up to `dev` of the gaps by a non-default separator,
/// numbered. Gaps: before the first token, between tokens, after the last.
pub struct Layouts {
    pub toks: Vec<&'static str>,
    gaps: u64,
    nsep: u64,
    /// (number of deviating gaps, first index)
    blocks: Vec<(usize, u64)>,
    pub size: u64,
}
fn binom(n: u64, k: u64) -> u64 {
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}
impl Layouts {
    pub fn new(toks: Vec<&'static str>, dev: usize) -> Layouts {
        let gaps = toks.len() as u64 + 1;
        let nsep = SEPS.len() as u64 - 1;
        let mut size = 0;
        let mut blocks = vec![];
        for d in 0..=dev {
            blocks.push((d, size));
            size += binom(gaps, d as u64) * nsep.pow(d as u32);
        }
        Layouts { toks, gaps, nsep, blocks, size }
    }
    pub fn text(&self, idx: u64) -> String {
        let (d, base) = *self.blocks.iter().rev().find(|b| b.1 <= idx).unwrap();
        let mut k = idx - base;
        let mut sep = vec![0usize; self.gaps as usize];
        let mut choices = vec![];
        for _ in 0..d {
            choices.push((k % self.nsep) as usize + 1);
            k /= self.nsep;
        }
        // k-th combination of d gaps
        let mut g = 0u64;
        let mut left = d as u64;
        for c in choices {
            loop {
                let with = binom(self.gaps - g - 1, left - 1);
                if k < with {
                    sep[g as usize] = c;
                    g += 1;
                    left -= 1;
                    break;
                }
                k -= with;
                g += 1;
            }
        }
        let mut s = String::new();
        for (i, t) in self.toks.iter().enumerate() {
            if !(i == 0 && sep[0] == 0) {
                s.push_str(SEPS[sep[i]]);
            }
            s.push_str(t);
        }
        if sep[self.toks.len()] != 0 {
            s.push_str(SEPS[sep[self.toks.len()]]);
        }
        s
    }
}

/// join tokens in one of several layouts
pub fn join<S: AsRef<str>>(toks: &[S], layout: usize) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        match layout {
            0 => {
                if i > 0 {
                    s.push(' ')
                }
            }
            1 => s.push_str(if i % 2 == 0 { "\n\t" } else { " # c \"\n  " }),
            _ => s.push_str(if i % 3 == 0 { "\r\n" } else { "   " }),
        }
        s.push_str(t.as_ref());
    }
    s
}

/// numerals of every make: signs, leading zeros, lengths, fractions, exponents
pub fn numerals() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in -20..=20 {
        v.push(format!("{}", i));
    }
    for s in ["+1", "+0", "-0", "007", "-007", "1.", "-1.", "+1.", ".5", "-.5", "+.5", "0.5", "2.0", "-2.0", "100.000", "00.50", "0.", "-0.0", ".0", "3.14159265358979", "0.1", "0.3", "16777217", "16777217.0", "33554433", "123456789", "9007199254740993", "9007199254740993.0", "1.5e0", "1e0", "1e00", "1e+0", "1e-0", "0e0", "0e5", "0e-5", "-0e1", "100e-2", "15e-1", "1500e-3", "1.0e1", "1.5e1", "2.5e3", ".5e1", "5.e1", "1e007", "1e+07", "-1e-07"] {
        v.push(s.into());
    }
    for k in 0..63 {
        for d in [-1i64, 0, 1] {
            v.push(format!("{}", (1i64 << k) + d));
        }
        v.push(format!("-{}", 1i64 << k));
    }
    v.push("9223372036854775807".into());
    v.push("-9223372036854775808".into());
    for n in 1..=18 {
        v.push("9".repeat(n));
        v.push(format!("1{}", "0".repeat(n)));
        v.push(format!("{}7", "0".repeat(n)));
    }
    for n in 1..=30 {
        v.push(format!("0.{}1", "0".repeat(n)));
        v.push(format!("1.{}1", "0".repeat(n)));
        v.push(format!("{}.5", "3".repeat(n)));
        v.push(format!(".{}", "6".repeat(n)));
    }
    for m in ["1", "12", "-3", "1.5", ".5", "999", "0"] {
        for e in -45..=38 {
            v.push(format!("{}e{}", m, e));
        }
    }
    v
}
/// what an author may have written for a value, right or wrong
pub fn spellings() -> Vec<String> {
    let mut v: Vec<String> = [
        "1", "0", "-1", "+1", "1.0", "2.0", "0.0", "-0", "-0.0", "2.5", ".5", "1.", "1e0", "1e2", "1e-2", "100e-2", "10e-1", "1e1", "2e0", "1.5e1", "1e20", "1e-20", "4294967296", "2147483648", "16777217", "9007199254740993", "9223372036854775807", "007",
        "true", "false", "True", "All", "a", "e5", "inf", "nan", "Include", "Identity", "Shape", "WorldEnd",
        "\"true\"", "\"false\"", "\"True\"", "\"TRUE\"", "\"true \"", "\" true\"", "\"false\\n\"", "\"t\"", "\"f\"", "\"yes\"", "\"no\"", "\"on\"", "\"off\"", "\"1\"", "\"0\"", "\"-1\"", "\"2.5\"", "\"1e3\"", "\" 1\"", "\"1 \"", "\"1 2\"", "\"1 2 3\"", "\"[1]\"", "\"[1 2 3]\"", "\"1,2,3\"", "\"#ff0000\"", "\"red\"", "\"white\"", "\"D65\"", "\"5500K\"", "\"5500 1\"", "\"nan\"", "\"inf\"", "\"\"", "\" \"", "\"none\"", "\"null\"", "\"a.spd\"", "\"float b\"", "\"integer\"", "\"truefalse\"", "\"true false\"", "\"t\\rue\"", "\"\\true\"", "\"tr\\\"ue\"",
        "[", "]", "[1", "1]", "[]", "[ ]", "[1]", "[[1]]", "[1] [2]", "[1 2] 3", "[]1", "1 2", "1 2 3", "[1.0]", "[2.0 3.0]", "[\"1\"]", "[true]", "[\"true\" 1]", "[1 \"true\"]", "[1 2 \"3\"]", "[1 [2] 3]", "[1 2 3]]", "[\"a\" \"b\"]", "[\"a\" 1]", "[\"a\"", "[1 a]", "[a]", "[1 2 a 3]", "[1#c\n2 3]", "[1 2#]\n]", "[\"true\"\"false\"]", "[-1-2-3]", "[1.5.5]", "[.5.5.5]", "[1+2]", "[1-2]", "[+1 +2 +3]", "[1e1 1e1 1e1]", "[0 0 0]", "[0 0]", "[0]", "[0 0 0 0]", "[1 2 3 4 5 6]", "[1 2 3 4 5]",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.extend(crate::dict::PATHS.iter().filter(|p| !p.contains('\\')).map(|p| format!("\"{}\"", p)));
    v
}
