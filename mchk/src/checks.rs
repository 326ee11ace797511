#![allow(unused_imports, dead_code)]
use crate::util::*;
use crate::{floats, ints, Float};
use fw::{digits, mix, Ctx, Local, Res, Viol};
#[cfg(any(feature = "p18", feature = "p20"))]
use pbrtrs::verif::boundingbox::{self, Bounds2, Bounds3};
use pbrtrs::verif::matrix::Matrix4;
use pbrtrs::verif::point::{self, Point2, Point3};
#[cfg(feature = "p21")]
use pbrtrs::verif::ray::{Ray, RayDifferential};
#[cfg(feature = "p16")]
use pbrtrs::verif::transform::Transform;
use pbrtrs::verif::vector::{self, Vector3};
#[cfg(feature = "p21")]
use pbrtrs::verif::Medium;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(ctx: &'static Ctx) {
    match ctx.prop.as_str() {
        #[cfg(feature = "p14")]
        "C14" => {
            ints::c14(ctx);
            floats::c14(ctx);
        }
        #[cfg(feature = "p15")]
        "C15" => c15(ctx),
        #[cfg(feature = "p16")]
        "C16" => c16(ctx),
        #[cfg(feature = "p17")]
        "C17" => {
            ints::c17(ctx);
            floats::c17(ctx);
        }
        #[cfg(feature = "p18")]
        "C18" => c18(ctx),
        #[cfg(feature = "p19")]
        "C19" => {
            ints::c19(ctx);
            floats::c19(ctx);
            ints::c19_scales(ctx);
            floats::c19_scales(ctx);
            rounding(ctx);
        }
        #[cfg(feature = "p20")]
        "C20" => {
            ints::c20(ctx);
            floats::c20(ctx);
            c20(ctx);
        }
        #[cfg(feature = "p21")]
        "C21" => c21(ctx),
        #[cfg(feature = "p22")]
        "C22" => c22(ctx),
        #[cfg(feature = "p23")]
        "C23" => c23(ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}

fn bad(what: impl Into<String>, case: &dyn Fn() -> String) -> Res {
    Err(Viol::new(what, case()))
}

// ---------------------------------------------------------------- C15
fn fm(a: &[[f64; 4]; 4]) -> Matrix4<Float> {
    let mut o = [[0 as Float; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = a[r][c] as Float;
        }
    }
    Matrix4::new(o)
}
fn im(a: &M) -> Matrix4<i64> {
    let mut o = [[0i64; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = a[r][c] as i64;
        }
    }
    Matrix4::new(o)
}
fn tof(a: &M) -> [[f64; 4]; 4] {
    let mut o = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = a[r][c] as f64;
        }
    }
    o
}
fn norm(a: &[[f64; 4]; 4]) -> f64 {
    a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}
fn maxabs(a: &[[f64; 4]; 4]) -> f64 {
    a.iter().flatten().fold(0.0, |m, x| m.max(x.abs()))
}
fn hf(m: &[[f64; 4]; 4]) -> u64 {
    m.iter().fold(0x99, |h0, r| mix(h0, h(r)))
}
fn getm(m: &Matrix4<Float>) -> [[f64; 4]; 4] {
    let mut o = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = m.mat[r][c] as f64;
        }
    }
    o
}
/// Is `got` the inverse `want` of `a`, as far as rounding allows?
fn inverse_ok(got: &[[f64; 4]; 4], want: &[[f64; 4]; 4], cond: f64) -> bool {
    let tol = 128.0 * EPS * cond * maxabs(want);
    (0..16).all(|i| {
        let (g, w) = (got[i / 4][i % 4], want[i / 4][i % 4]);
        g == w || (g - w).abs() <= tol
    })
}
/// The clause on refusal: singularity that shows without any rounding.
fn plainly_singular(a: &M) -> bool {
    let t = transpose(a);
    for m in [a, &t] {
        for i in 0..4 {
            if m[i] == [0; 4] {
                return true;
            }
            for j in i + 1..4 {
                if m[i] == m[j] {
                    return true;
                }
            }
        }
    }
    false
}
#[cfg(feature = "p15")]
/// judge the inversion of an integer matrix, as integers and as floats
fn invert(a: &M, small: bool, loc: &mut Local) -> Res {
    let case = || format!("A = {:?}", a);
    let case: &dyn Fn() -> String = &case;
    let (adj, det) = adjugate(a);
    let k = hm(a);
    loc.state(k);
    if det == 0 {
        if small && plainly_singular(a) {
            for (n, r) in [("i64", refuses(|| im(a).inverse())), ("float", refuses(|| fm(&tof(a)).inverse()))] {
                loc.execs += 1;
                if !r {
                    return bad(format!("{}: a singular matrix was given an inverse", n), case);
                }
            }
            loc.count("singular matrices refused", 1);
            loc.tran(k, 1, 0);
        } else {
            // still has to come back, one way or the other
            let r = refuses(|| fm(&tof(a)).inverse());
            loc.count(if r { "other singular: refused" } else { "other singular: not noticed (rounding)" }, 1);
            loc.execs += 1;
        }
        return Ok(());
    }
    let mut want = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            want[r][c] = adj[r][c] as f64 / det as f64;
        }
    }
    let af = tof(a);
    let cond = norm(&af) * norm(&want);
    // a matrix this close to singular in the float type may legitimately be refused
    let hopeless = cond * EPS > 0.01;
    for n in ["i64", "float"] {
        let got = catch_unwind(AssertUnwindSafe(|| if n == "i64" { im(a).inverse() } else { fm(&af).inverse() }));
        loc.execs += 1;
        match got {
            Err(_) if hopeless => (),
            Err(_) => return bad(format!("{}: an invertible matrix (determinant {}) was refused", n, det), case),
            Ok(g) => {
                let g = getm(&g);
                if !hopeless && !inverse_ok(&g, &want, cond) {
                    return bad(format!("{}: got {:?}, the inverse is {:?}", n, g, want), case);
                }
                loc.tran(k, 1, hf(&g));
            }
        }
    }
    loc.count("invertible matrices inverted", 1);
    Ok(())
}
#[cfg(feature = "p15")]
fn invert_f(a: &[[f64; 4]; 4], want: &[[f64; 4]; 4], loc: &mut Local) -> Res {
    let case = || format!("A = {:?}", a);
    let case: &dyn Fn() -> String = &case;
    let g = getm(&call(case, || fm(a).inverse())?);
    loc.execs += 1;
    loc.state(hf(a));
    loc.tran(hf(a), 1, hf(&g));
    // scalings by powers of two are exact, so compare entry by entry, relatively
    for i in 0..16 {
        let (x, w) = (g[i / 4][i % 4], want[i / 4][i % 4]);
        if !close(x, w, 64.0) {
            return bad(format!("entry ({}, {}): got {:e}, expected {:e}", i / 4, i % 4, x, w), case);
        }
    }
    Ok(())
}

#[cfg(feature = "p15")]
fn ternary(mut i: u64) -> M {
    let mut o = [[0; 4]; 4];
    for k in 0..16 {
        o[k / 4][k % 4] = (i % 3) as i128 - 1;
        i /= 3;
    }
    o
}

#[cfg(feature = "p15")]
fn c15(ctx: &'static Ctx) {
    ctx.space("binary", 65536, "every 0/1 matrix, as integers and as floats", |i, loc| {
        let mut a = [[0; 4]; 4];
        for k in 0..16 {
            a[k / 4][k % 4] = (i >> k & 1) as i128;
        }
        loc.sample(|| format!("{:?}", a));
        invert(&a, true, loc)
    });
    if ctx.thorough {
        ctx.space("ternary", 43046721, "every matrix with entries -1, 0, 1, as integers and as floats", |i, loc| {
            let a = ternary(i);
            let r = invert(&a, true, loc);
            r
        });
    } else {
        // two equal rows (or columns): 6 pairs x 3^12, one element per space index
        ctx.space(
            "ternary-rows",
            3u64.pow(12) * 4,
            "every matrix with entries -1, 0, 1 in three rows and a unit row (0,0,0,1) in each place",
            |i, loc| {
                let place = (i % 4) as usize;
                let b = ternary(i / 4);
                let mut a = [[0; 4]; 4];
                let mut k = 0;
                for r in 0..4 {
                    if r == place {
                        a[r][3 - place] = 1;
                    } else {
                        a[r] = b[k];
                        k += 1;
                    }
                }
                invert(&a, true, loc)
            },
        );
        ctx.space(
            "ternary-equal",
            3u64.pow(12) * 6,
            "every matrix with entries -1, 0, 1 in which two given rows are equal, and its transpose",
            |i, loc| {
                const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
                let (p, q) = PAIRS[(i % 6) as usize];
                let b = ternary(i / 6);
                let mut a = [[0; 4]; 4];
                let mut k = 0;
                for r in 0..4 {
                    if r != q {
                        a[r] = b[k];
                        k += 1;
                    }
                }
                a[q] = a[p];
                // one of the two element types each, the other for the transpose
                let t = transpose(&a);
                let (r1, r2) = (refuses(|| im(&a).inverse()), refuses(|| fm(&tof(&t)).inverse()));
                loc.execs += 2;
                loc.count("singular matrices refused", 2);
                if !r1 || !r2 {
                    let x = if !r1 { a } else { t };
                    return bad("a matrix with two equal rows or columns was given an inverse", &|| format!("A = {:?}", x));
                }
                Ok(())
            },
        );
    }
    // zero row or column, arbitrary other entries
    ctx.space(
        "zero-line",
        8 * 4096,
        "a zero row or column in each place, the other entries from 4096 combinations of awkward values",
        |i, loc| {
            let line = (i % 8) as usize;
            let mut x = i / 8;
            const V: [f64; 4] = [0.1, -3.0, 49.0, 1e-7];
            let mut a = [[0.0; 4]; 4];
            for k in 0..16usize {
                let (r, c) = (k / 4, k % 4);
                if line < 4 && r == line || line >= 4 && c == line - 4 {
                    continue;
                }
                a[r][c] = V[((x + k as u64 * 7) % 4) as usize];
                x = x / 2 + (x % 2) * 2048;
            }
            loc.execs += 1;
            loc.state(hf(&a));
            if !refuses(|| fm(&a).inverse()) {
                return bad("a matrix with a zero row or column was given an inverse", &|| format!("A = {:?}", a));
            }
            Ok(())
        },
    );
    // monomial matrices: all pivot orders, signs, and magnitudes
    let ex: &[i32] = if ctx.thorough { &[-120, -100, -75, -60, -31, -8, -1, 0, 1, 2, 7, 33, 60, 75, 100, 120] } else { &[-100, -60, -31, -8, -1, 0, 1, 7, 33, 60, 100] };
    let ne = ex.len() as u64;
    let perms = perms4();
    let r = [24, 16, ne, ne, ne, ne];
    ctx.space(
        "monomial",
        r.iter().product(),
        &format!("every permutation, every sign pattern, every choice of magnitudes 2^k, k in {:?}", ex),
        |i, loc| {
            let d = digits(i, &r);
            let p = perms[d[0]];
            let mut a = [[0.0; 4]; 4];
            let mut w = [[0.0; 4]; 4];
            for k in 0..4 {
                let s = if d[1] >> k & 1 == 1 { -1.0 } else { 1.0 };
                let v = s * 2f64.powi(ex[d[2 + k]]);
                a[k][p[k]] = v;
                w[p[k]][k] = 1.0 / v;
            }
            invert_f(&a, &w, loc)
        },
    );
    // uniform scalings of every invertible 0/1 matrix
    let sc: &[i32] = &[-40, -24, -3, 5, 20, 40];
    ctx.space(
        "scaled-binary",
        65536 * sc.len() as u64,
        &format!("every invertible 0/1 matrix times 2^k, k in {:?}", sc),
        |i, loc| {
            let bits = i % 65536;
            let mut m = [[0; 4]; 4];
            for k in 0..16 {
                m[k / 4][k % 4] = (bits >> k & 1) as i128;
            }
            let (adj, det) = adjugate(&m);
            if det == 0 {
                return Ok(());
            }
            let s = 2f64.powi(sc[(i / 65536) as usize]);
            let mut a = [[0.0; 4]; 4];
            let mut w = [[0.0; 4]; 4];
            for k in 0..16 {
                a[k / 4][k % 4] = m[k / 4][k % 4] as f64 * s;
                w[k / 4][k % 4] = adj[k / 4][k % 4] as f64 / det as f64 / s;
            }
            let case = || format!("A = {:?}", a);
            let g = getm(&call(case, || fm(&a).inverse())?);
            loc.execs += 1;
            loc.state(hf(&a));
            if !inverse_ok(&g, &w, norm(&a) * norm(&w)) {
                return bad(format!("got {:?}, the inverse is {:?}", g, w), &case);
            }
            Ok(())
        },
    );
    // monomial times a shear: one pivot affects the others
    let mags: [i128; 4] = [1, -2, 3, 16];
    let r = [24, 4, 4, 4, 4, 16, 4];
    ctx.space(
        "sheared",
        r.iter().product(),
        "every permutation times every diagonal over 1, -2, 3, 16 plus every one more entry from 1, -5, 8, 49",
        |i, loc| {
            let d = digits(i, &r);
            let p = perms[d[0]];
            let mut a = [[0; 4]; 4];
            for k in 0..4 {
                a[k][p[k]] = mags[d[1 + k]];
            }
            a[d[5] / 4][d[5] % 4] += [1, -5, 8, 49][d[6]];
            invert(&a, false, loc)
        },
    );
    // unit shears of every magnitude, permuted: the inverse is exact
    let es: Vec<i32> = (-100..=100).step_by(if ctx.thorough { 1 } else { 4 }).collect();
    let r = [24, 16, es.len() as u64, 2];
    ctx.space("unit-shears", r.iter().product(), "every permutation times the identity with one more entry +-2^k, k from -100 to 100", |i, loc| {
        let d = digits(i, &r);
        let (p, q) = (d[1] / 4, d[1] % 4);
        if p == q {
            return Ok(());
        }
        let v = 2f64.powi(es[d[2]]) * if d[3] == 1 { -1.0 } else { 1.0 };
        let pm = perms[d[0]];
        // rows of (1 + v E_pq) permuted; columns of (1 - v E_pq) permuted alike
        let (mut a, mut w) = ([[0.0; 4]; 4], [[0.0; 4]; 4]);
        for k in 0..4 {
            a[pm[k]][k] += 1.0;
            w[k][pm[k]] += 1.0;
            if k == p {
                a[pm[k]][q] += v;
            }
            if k == q {
                w[p][pm[k]] -= v;
            }
        }
        invert_f(&a, &w, loc)
    });
    // circulants and bordered matrices with larger entries
    let side = if ctx.thorough { 41 } else { 21 };
    ctx.space(
        "circulant",
        (side as u64).pow(4) * 2,
        &format!("every circulant and every Hankel matrix with first row over -{0}..{0}", side / 2),
        |i, loc| {
            let d = digits(i / 2, &[side as u64; 4]);
            let v: Vec<i128> = d.iter().map(|x| *x as i128 - side / 2).collect();
            let mut a = [[0; 4]; 4];
            for r in 0..4usize {
                for c in 0..4usize {
                    a[r][c] = if i % 2 == 0 {
                        v[(c + 4 - r) % 4]
                    } else {
                        v[(r + c) % 4] + if r + c > 3 { 1 } else { 0 }
                    };
                }
            }
            invert(&a, false, loc)
        },
    );
    // large integers
    let big: [i128; 5] = [1 << 40, -(1 << 61), (1 << 53) + 1, 3, -1];
    let r = [24, 5, 5, 5, 5];
    ctx.space("large-integers", r.iter().product(), "every permutation with large integer entries", |i, loc| {
        let d = digits(i, &r);
        let p = perms[d[0]];
        let mut a = [[0i64; 4]; 4];
        let mut w = [[0.0f64; 4]; 4];
        for k in 0..4 {
            a[k][p[k]] = big[d[1 + k]] as i64;
            w[p[k]][k] = 1.0 / big[d[1 + k]] as f64;
        }
        let case = || format!("A = {:?} (i64)", a);
        let g = getm(&call(case, || Matrix4::new(a).inverse())?);
        loc.execs += 1;
        for k in 0..16 {
            if !close(g[k / 4][k % 4], w[k / 4][k % 4], 64.0) {
                return bad(format!("got {:?}, the inverse is {:?}", g, w), &case);
            }
        }
        loc.state(hf(&w));
        Ok(())
    });
}

// ---------------------------------------------------------------- C16
fn ft(m: &[[f64; 4]; 4]) -> [[f64; 4]; 4] {
    let mut o = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[c][r] = m[r][c];
        }
    }
    o
}
fn fid() -> [[f64; 4]; 4] {
    tof(&ident())
}
fn v3(x: f64, y: f64, z: f64) -> Vector3<Float> {
    Vector3::new(x as Float, y as Float, z as Float)
}

#[cfg(feature = "p16")]
/// Judge one transform against its matrix and the true inverse of that matrix.
/// `exact`: entries are compared entry by entry, relatively; otherwise up to
/// the conditioning of the matrix.
fn transform_ok(t: &Transform, m: &[[f64; 4]; 4], inv: &[[f64; 4]; 4], exact: bool, loc: &mut Local, case: &dyn Fn() -> String) -> Res {
    let cond = norm(m) * norm(inv);
    let same = |g: &[[f64; 4]; 4], w: &[[f64; 4]; 4], what: &str| -> Res {
        let ok = if exact {
            (0..16).all(|i| close(g[i / 4][i % 4], w[i / 4][i % 4], 8.0))
        } else {
            inverse_ok(g, w, cond)
        };
        if ok {
            Ok(())
        } else {
            bad(format!("{}: got {:?}, expected {:?}", what, g, w), case)
        }
    };
    let gm = getm(&t.m);
    let gi = getm(&call(case, || t.inverse())?.m);
    same(&gm, m, "matrix")?;
    same(&gi, inv, "matrix of the inverse")?;
    loc.state(hf(&gm));
    // every word over { inverse, transpose } up to length 5
    for len in 1..=5u32 {
        for w in 0..1u32 << len {
            let (mut em, mut ei) = (gm, gi);
            let mut x = *t;
            for k in 0..len {
                let from = hf(&em);
                if w >> k & 1 == 0 {
                    x = call(case, || x.inverse())?;
                    std::mem::swap(&mut em, &mut ei);
                } else {
                    x = call(case, || x.transpose())?;
                    em = ft(&em);
                    ei = ft(&ei);
                }
                loc.execs += 1;
                loc.state(hf(&em));
                loc.tran(from, (w >> k & 1) as u64, hf(&em));
            }
            let (xm, xi) = (getm(&x.m), getm(&call(case, || x.inverse())?.m));
            let ops: String = (0..len).map(|k| if w >> k & 1 == 0 { 'I' } else { 'T' }).collect();
            if xm != em {
                return bad(format!("after {} (I: inverse, T: transpose): matrix {:?}, expected {:?}", ops, xm, em), case);
            }
            if xi != ei {
                return bad(format!("after {} (I: inverse, T: transpose): inverse {:?}, expected {:?}", ops, xi, ei), case);
            }
        }
    }
    // twice inverted is the original, as a value
    if call(case, || t.inverse().inverse())? != *t {
        return bad("inverting twice does not give the original back", case);
    }
    // identity test
    let is = call(case, || t.is_identity())?;
    if is != (gm == fid()) {
        return bad(format!("is_identity is {} for {:?}", is, gm), case);
    }
    // scale test
    let mut expect = Some(false);
    for c in 0..3 {
        let l2: f64 = (0..3).map(|r| gm[r][c] * gm[r][c]).sum();
        let off = (l2 - 1.0).abs();
        if off > 0.001 + 1e-5 || l2.is_nan() {
            expect = Some(true);
            break;
        } else if off > 0.001 - 1e-5 {
            expect = None;
        }
    }
    let hs = call(case, || t.has_scale())?;
    if expect.is_some() && expect != Some(hs) {
        return bad(format!("has_scale is {} for {:?}", hs, gm), case);
    }
    loc.execs += 3;
    // vectors
    for (x, y, z) in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -2, 3), (-5, 4, 0), (7, 7, 7)] {
        let a = [x as f64, y as f64, z as f64];
        let w: Vec<f64> = (0..3).map(|r| (0..3).map(|c| gm[r][c] * a[c]).sum()).collect();
        let sz: Vec<f64> = (0..3).map(|r| (0..3).map(|c| (gm[r][c] * a[c]).abs()).sum()).collect();
        let g1 = call(case, || v3(a[0], a[1], a[2]).transform(t))?;
        let g2 = call(case, || Vector3::<i64>::new(x, y, z).transform(t))?;
        for (n, g) in [("float", g1), ("i64", g2)] {
            let g = [g.x as f64, g.y as f64, g.z as f64];
            for k in 0..3 {
                if !((g[k] - w[k]).abs() <= 8.0 * EPS * sz[k] || g[k] == w[k]) {
                    return bad(format!("{} vector {:?} is mapped to {:?}, expected {:?}", n, a, g, w), case);
                }
            }
        }
        loc.execs += 2;
        // mapping by the inverse undoes it, when the matrix is affine
        if m[3] == [0.0, 0.0, 0.0, 1.0] && cond < 1e4 {
            let back = call(case, || g1.transform(&t.inverse()))?;
            let b = [back.x as f64, back.y as f64, back.z as f64];
            for k in 0..3 {
                if (b[k] - a[k]).abs() > 256.0 * EPS * cond * 10.0 {
                    return bad(format!("vector {:?} is mapped to {:?} and back to {:?}", a, w, b), case);
                }
            }
            loc.execs += 1;
        }
    }
    Ok(())
}

#[cfg(feature = "p16")]
fn c16(ctx: &'static Ctx) {
    let tv: Vec<f64> =
        vec![0.0, 1.0, -1.0, 0.5, 3.0, -7.25, 1e6, -1e-6, 0.1, 100.0, 2f64.powi(100), -(2f64.powi(-100)), 2f64.powi(20)]
;
    let n = tv.len() as u64;
    ctx.space("translations", n.pow(3), &format!("every translation over {:?}", tv), |i, loc| {
        let d = digits(i, &[n; 3]);
        let dv = [tv[d[0]] as Float, tv[d[1]] as Float, tv[d[2]] as Float];
        let case = || format!("translate {:?}", dv);
        loc.sample(|| case());
        let t = call(case, || Transform::translate(&Vector3::new(dv[0], dv[1], dv[2])))?;
        let (mut m, mut w) = (fid(), fid());
        for k in 0..3 {
            m[k][3] = dv[k] as f64;
            w[k][3] = -(dv[k] as f64);
        }
        transform_ok(&t, &m, &w, true, loc, &case)?;
        // vectors are not moved, bit by bit
        let g = call(case, || v3(1.5, -2.0, 4.0).transform(&t))?;
        if (g.x, g.y, g.z) != (1.5, -2.0, 4.0) {
            return bad(format!("a vector is moved by a translation: {:?}", g), &case);
        }
        Ok(())
    });
    let sv: Vec<f64> = vec![
        1.0, -1.0, 2.0, 0.5, -4.0, 3.0, 10.0, 0.1, 2f64.powi(30), -(2f64.powi(-30)), 1.0002, 0.9998, 1.002, 7.0, -0.3, 1e3, 1e-3, 0.998,
        1.0004, 0.99,
    ];
    let n = sv.len() as u64;
    ctx.space("scalings", n.pow(3), &format!("every scaling over {:?}", sv), |i, loc| {
        let d = digits(i, &[n; 3]);
        let s = [sv[d[0]] as Float, sv[d[1]] as Float, sv[d[2]] as Float];
        let case = || format!("scale {:?}", s);
        let t = call(case, || Transform::scale(s[0], s[1], s[2]))?;
        let (mut m, mut w) = (fid(), fid());
        for k in 0..3 {
            m[k][k] = s[k] as f64;
            w[k][k] = 1.0 / s[k] as f64;
        }
        transform_ok(&t, &m, &w, true, loc, &case)
    });
    // the 0.1% threshold, per axis and direction
    ctx.space("scale-threshold", 3 * 801, "scale factors from 0.996 to 1.004 in steps of 0.00001, on each axis", |i, loc| {
        let ax = (i % 3) as usize;
        let f = 0.996 + (i / 3) as f64 * 1e-5;
        let mut s = [1.0 as Float; 3];
        s[ax] = f as Float;
        let case = || format!("scale {:?}", s);
        let t = call(case, || Transform::scale(s[0], s[1], s[2]))?;
        let l2 = (s[ax] as f64).powi(2);
        let hs = call(case, || t.has_scale())?;
        loc.execs += 1;
        loc.state(l2.to_bits());
        loc.tran(ax as u64, l2.to_bits(), hs as u64);
        if ((l2 - 1.0).abs() - 0.001).abs() > 4e-6 && hs != ((l2 - 1.0).abs() > 0.001) {
            return bad(format!("has_scale is {} at squared length {}", hs, l2), &case);
        }
        Ok(())
    });
    // any invertible matrix
    ctx.space("from-binary", 65536, "every invertible 0/1 matrix", |i, loc| {
        let mut a = [[0; 4]; 4];
        for k in 0..16 {
            a[k / 4][k % 4] = (i >> k & 1) as i128;
        }
        from_matrix(&a, loc)
    });
    let lin = 3u64.pow(9);
    let tr: &[[i128; 3]] = &[[0, 0, 0], [1, -2, 3], [100, 0, -7], [0, 5, 0]];
    ctx.space(
        "from-affine",
        lin * tr.len() as u64,
        "every invertible linear part over -1, 0, 1 with a translation",
        |i, loc| {
            let mut x = i % lin;
            let mut a = ident();
            for k in 0..9 {
                a[k / 3][k % 3] = (x % 3) as i128 - 1;
                x /= 3;
            }
            for k in 0..3 {
                a[k][3] = tr[(i / lin) as usize][k];
            }
            from_matrix(&a, loc)
        },
    );
    let perms = perms4();
    let sg: [i128; 4] = [1, -1, 2, -4];
    let r = [24, 4, 4, 4, 4];
    ctx.space("from-monomial", r.iter().product(), "every permutation with entries from 1, -1, 2, -4", |i, loc| {
        let d = digits(i, &r);
        let mut a = [[0; 4]; 4];
        for k in 0..4 {
            a[k][perms[d[0]][k]] = sg[d[1 + k]];
        }
        from_matrix(&a, loc)
    });
    // rotations: exact Pythagorean triples about each axis
    let tri: [(f64, f64, f64); 6] = [(3.0, 4.0, 5.0), (5.0, 12.0, 13.0), (8.0, 15.0, 17.0), (7.0, 24.0, 25.0), (0.0, 1.0, 1.0), (20.0, 21.0, 29.0)];
    ctx.space("rotations", 6 * 3 * 8, "rotations and reflections by Pythagorean angles about each axis", |i, loc| {
        let (a, b, c) = tri[(i % 6) as usize];
        let ax = (i / 6 % 3) as usize;
        let sgn = i / 18;
        let (co, si) = (a / c * if sgn & 1 == 1 { -1.0 } else { 1.0 }, b / c * if sgn & 2 == 2 { -1.0 } else { 1.0 });
        let (p, q) = ((ax + 1) % 3, (ax + 2) % 3);
        let mut m = fid();
        m[p][p] = co as Float as f64;
        m[q][q] = co as Float as f64;
        m[p][q] = -(si as Float as f64);
        m[q][p] = si as Float as f64;
        if sgn & 4 == 4 {
            m[ax][ax] = -1.0;
        }
        let w = ft(&m);
        let case = || format!("Transform::new_({:?})", m);
        let t = call(case, || Transform::new_(fm(&m)))?;
        transform_ok(&t, &m, &w, false, loc, &case)
    });
    // almost the identity
    let mut dl: Vec<f64> = vec![1.0, 0.5, 1e-3, 1e-5, 2.0 * EPS, EPS, 1e-20];
    dl.extend(dl.clone().iter().map(|x| -x));
    ctx.space(
        "near-identity",
        16 * dl.len() as u64,
        &format!("the identity with one entry changed by {:?}, at every position", dl),
        |i, loc| {
            let k = (i % 16) as usize;
            let mut m = fid();
            let base = m[k / 4][k % 4];
            m[k / 4][k % 4] = (base + dl[(i / 16) as usize]) as Float as f64;
            if m[k / 4][k % 4] == 0.0 && base == 1.0 {
                return Ok(()); // singular
            }
            let mut w = fid();
            if k / 4 == k % 4 {
                w[k / 4][k / 4] = 1.0 / m[k / 4][k / 4];
            } else {
                w[k / 4][k % 4] = -m[k / 4][k % 4];
            }
            let case = || format!("Transform::new_({:?})", m);
            let t = call(case, || Transform::new_(fm(&m)))?;
            transform_ok(&t, &m, &w, true, loc, &case)
        },
    );
    ctx.space(
        "near-identity-2",
        (16 * 16 * dl.len() * dl.len()) as u64,
        "the identity with two entries changed by the same amounts, at every pair of positions",
        |i, loc| {
            let d = digits(i, &[16, 16, dl.len() as u64, dl.len() as u64]);
            if d[0] >= d[1] {
                return Ok(());
            }
            let mut m = fid();
            for k in 0..2 {
                let e = &mut m[d[k] / 4][d[k] % 4];
                *e = (*e + dl[d[2 + k]]) as Float as f64;
            }
            float_matrix(&m, loc)
        },
    );
    // reflections in a plane: their own inverse and transpose
    let sc: Vec<f64> = vec![1.0, 1.0004, 1.002, 0.5, -1.0];
    ctx.space("reflections", 5u64.pow(4) * sc.len() as u64, "I - 2vv'/|v|^2 for every v over -2..2, times 5 factors", |i, loc| {
        let d = digits(i, &[5, 5, 5, 5, sc.len() as u64]);
        let v: Vec<f64> = (0..4).map(|k| d[k] as f64 - 2.0).collect();
        let n: f64 = v.iter().map(|x| x * x).sum();
        if n == 0.0 {
            return Ok(());
        }
        let mut m = fid();
        for k in 0..16 {
            let (r, c) = (k / 4, k % 4);
            m[r][c] = ((m[r][c] - 2.0 * v[r] * v[c] / n) * sc[d[4]]) as Float as f64;
        }
        float_matrix(&m, loc)
    });
    let tr: &[[f64; 3]] = &[[0.0; 3], [1.0, -2.0, 3.0], [0.0, 0.0, 1e4]];
    let r = [7, 7, 7, 7, sc.len() as u64, 3];
    ctx.space("quaternions", r.iter().product(), "the rotation of every quaternion over -3..3, one axis times 5 factors, 3 translations", |i, loc| {
        let d = digits(i, &r);
        let q: Vec<f64> = (0..4).map(|k| d[k] as f64 - 3.0).collect();
        let n: f64 = q.iter().map(|x| x * x).sum();
        if n == 0.0 {
            return Ok(());
        }
        let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
        let rot = [
            [n - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
            [2.0 * (x * y + w * z), n - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
            [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), n - 2.0 * (x * x + y * y)],
        ];
        let mut m = fid();
        for k in 0..9 {
            let (r, c) = (k / 3, k % 3);
            m[r][c] = (rot[r][c] / n * if c == d[0] % 3 { sc[d[4]] } else { 1.0 }) as Float as f64;
        }
        for k in 0..3 {
            m[k][3] = tr[d[5]][k];
        }
        float_matrix(&m, loc)
    });
    // scaling and translation together, on each axis
    let es: Vec<i32> = (-40..=40).step_by(if ctx.thorough { 5 } else { 10 }).collect();
    let ne = es.len() as u64;
    let r = [ne, ne, ne, ne, 3, 4];
    ctx.space(
        "from-scale-translate",
        r.iter().product(),
        &format!("matrices scaling each axis by 2^k and translating one by 2^k, k in {:?}, all signs of those", es),
        |i, loc| {
            let d = digits(i, &r);
            let ax = d[4];
            let (mut m, mut w) = (fid(), fid());
            for k in 0..3 {
                let s = 2f64.powi(es[d[k]]) * if k == ax && d[5] & 1 == 1 { -1.0 } else { 1.0 };
                m[k][k] = s;
                w[k][k] = 1.0 / s;
            }
            m[ax][3] = 2f64.powi(es[d[3]]) * if d[5] & 2 == 2 { -1.0 } else { 1.0 };
            w[ax][3] = -m[ax][3] / m[ax][ax];
            let case = || format!("Transform::new_({:?})", m);
            let t = call(case, || Transform::new_(fm(&m)))?;
            transform_ok(&t, &m, &w, true, loc, &case)
        },
    );
}
/// Inverse in double precision with row pivoting; None when hardly invertible.
#[cfg(feature = "p16")]
fn finv(m: &[[f64; 4]; 4]) -> Option<[[f64; 4]; 4]> {
    let (mut a, mut b) = (*m, fid());
    for c in 0..4 {
        let p = (c..4).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        if a[p][c].abs() < 1e-9 {
            return None;
        }
        a.swap(p, c);
        b.swap(p, c);
        let f = a[c][c];
        for k in 0..4 {
            a[c][k] /= f;
            b[c][k] /= f;
        }
        for r in 0..4 {
            if r != c {
                let f = a[r][c];
                for k in 0..4 {
                    a[r][k] -= a[c][k] * f;
                    b[r][k] -= b[c][k] * f;
                }
            }
        }
    }
    Some(b)
}
#[cfg(feature = "p16")]
fn float_matrix(m: &[[f64; 4]; 4], loc: &mut Local) -> Res {
    let Some(w) = finv(m) else { return Ok(()) };
    if norm(m) * norm(&w) > 1e6 {
        return Ok(());
    }
    let case = || format!("Transform::new_({:?})", m);
    let t = call(case, || Transform::new_(fm(m)))?;
    transform_ok(&t, m, &w, false, loc, &case)
}
#[cfg(feature = "p16")]
fn from_matrix(a: &M, loc: &mut Local) -> Res {
    let (adj, det) = adjugate(a);
    if det == 0 {
        return Ok(());
    }
    let mut w = [[0.0; 4]; 4];
    for k in 0..16 {
        w[k / 4][k % 4] = adj[k / 4][k % 4] as f64 / det as f64;
    }
    let case = || format!("Transform::new_({:?})", a);
    let t = call(case, || Transform::new_(fm(&tof(a))))?;
    transform_ok(&t, &tof(a), &w, false, loc, &case)
}

// ---------------------------------------------------------------- C18
#[cfg(feature = "p18")]
fn iterate(x0: i64, y0: i64, x1: i64, y1: i64, loc: &mut Local) -> Res {
    let mk = || Bounds2 { p_min: Point2 { x: x0, y: y0 }, p_max: Point2 { x: x1, y: y1 } };
    let case = || format!("Bounds2 ({}, {}) .. ({}, {})", x0, y0, x1, y1);
    let case: &dyn Fn() -> String = &case;
    let empty = x1 <= x0 || y1 <= y0;
    let total = if empty { 0 } else { ((x1 - x0) * (y1 - y0)) as usize };
    let mut it = call(case, || mk().into_iter())?;
    let mut seen = 0usize;
    let s0 = mix(mix(x0 as u64, y0 as u64), mix(x1 as u64, y1 as u64));
    for step in 0..total + 4 {
        let hint = call(case, || it.size_hint())?;
        let left = total.saturating_sub(step);
        if hint.0 > left || hint.1.map_or(false, |u| u < left) {
            return bad(format!("size_hint {:?} with {} points left", hint, left), case);
        }
        let got = call(case, || it.next())?;
        loc.execs += 1;
        let want = if step < total {
            let w = x1 - x0;
            Some((x0 + step as i64 % w, y0 + step as i64 / w))
        } else {
            None
        };
        let got = got.map(|p| (p.x, p.y));
        if got != want {
            return bad(format!("step {}: got {:?}, expected {:?}", step, got, want), case);
        }
        if let Some((x, y)) = got {
            seen += 1;
            let s = mix(s0, mix(x as u64, y as u64));
            loc.state(s);
            loc.tran(s0, step as u64, s);
        }
    }
    debug_assert_eq!(seen, total);
    // through the adaptors of the standard library
    let c = call(case, || mk().into_iter().take(total + 3).count())?;
    let l = call(case, || mk().into_iter().take(total + 3).last())?.map(|p| (p.x, p.y));
    let wl = if total == 0 { None } else { Some((x1 - 1, y1 - 1)) };
    if c != total || l != wl {
        return bad(format!("count {} (expected {}), last {:?} (expected {:?})", c, total, l, wl), case);
    }
    for k in 0..total.min(6) + 1 {
        let g = call(case, || mk().into_iter().nth(k))?.map(|p| (p.x, p.y));
        let w = if k < total { Some((x0 + k as i64 % (x1 - x0), y0 + k as i64 / (x1 - x0))) } else { None };
        if g != w {
            return bad(format!("nth({}): got {:?}, expected {:?}", k, g, w), case);
        }
        loc.execs += 1;
    }
    loc.execs += 2;
    Ok(())
}
#[cfg(feature = "p18")]
fn c18(ctx: &'static Ctx) {
    let n: i64 = if ctx.thorough { 12 } else { 6 };
    let k = (2 * n + 1) as u64;
    ctx.space("small", k.pow(4), &format!("every pair of corners over -{0}..{0}, empty and inverted boxes included", n), |i, loc| {
        let d = digits(i, &[k; 4]);
        let g = |j: usize| d[j] as i64 - n;
        loc.sample(|| format!("({}, {}) .. ({}, {})", g(0), g(1), g(2), g(3)));
        iterate(g(0), g(1), g(2), g(3), loc)
    });
    let base: [i64; 9] = [
        0,
        -1,
        1000,
        -70000,
        (1 << 31) - 2,
        -(1 << 31) - 2,
        (1 << 53) + 1,
        i64::MAX - 4,
        i64::MIN,
    ];
    let r = [9, 9, 5, 5];
    ctx.space("offsets", r.iter().product(), &format!("every extent 0..4 x 0..4 at every origin over {:?}", base), |i, loc| {
        let d = digits(i, &r);
        let (x, y) = (base[d[0]], base[d[1]]);
        iterate(x, y, x + d[2] as i64, y + d[3] as i64, loc)
    });
    let lim = if ctx.thorough { 2000 } else { 300 };
    ctx.space("extents", lim * 4, "one side of every length up to the limit, the other 1..4, both ways", |i, loc| {
        let (a, b) = ((i / 4) as i64, (i % 4) as i64 + 1);
        iterate(-3, 5, -3 + a, 5 + b, loc)?;
        iterate(7, -2, 7 + b, -2 + a, loc)
    });
    // long sides at and around every power of two
    let top = if ctx.thorough { 20 } else { 17 };
    let mut ls: Vec<i64> = vec![];
    for k in 8..=top {
        ls.extend([(1i64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    ls.extend([1000, 5000, 10000, 65000]);
    let r = [ls.len() as u64, 2, 2, 4];
    ctx.space("long-sides", r.iter().product(), &format!("one side around every power of two up to 2^{}, the other 1 or 2, from four origins", top), |i, loc| {
        let d = digits(i, &r);
        let (n, m) = (ls[d[0]], d[1] as i64 + 1);
        let o = [0, -n / 2, -n - 7, 12345][d[3]];
        if d[2] == 0 {
            iterate(o, -1, o + n, m - 1, loc)
        } else {
            iterate(-1, o, m - 1, o + n, loc)
        }
    });
    ctx.space("squares", if ctx.thorough { 500 } else { 120 }, "every n x n box", |i, loc| {
        iterate(-7, -9, -7 + i as i64, -9 + i as i64, loc)
    });
    // inverted on one axis, far on the other
    let far: [i64; 6] = [-(1 << 40), -100, -1, 1, 100, 1 << 40];
    ctx.space("inverted", 36 * 2, "a side inverted or empty, the other of any length: nothing is yielded", |i, loc| {
        let (a, b) = (far[(i % 6) as usize], far[(i / 6 % 6) as usize]);
        let e = i / 36;
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        let inv = if e == 0 { (3, 3) } else { (3, -5) };
        iterate(lo, inv.0, hi, inv.1, loc)?;
        iterate(inv.0, lo, inv.1, hi, loc)
    });
}

// ---------------------------------------------------------------- C19 (floats only)
#[cfg(feature = "p19")]
fn rounding(ctx: &'static Ctx) {
    let al: Vec<f64> = vec![-1e9, -2.5, -2.0, -1.75, -1.0, -0.5, -1e-6, 0.0, 1e-6, 0.25, 0.5, 1.0, 1.5, 2.0, 7.999, 1e9];
    let k = al.len() as u64;
    ctx.space("float-floor-ceil", k.pow(3), &format!("floor and ceil of every point over {:?}", al), |i, loc| {
        let d = digits(i, &[k; 3]);
        let a = [al[d[0]] as Float, al[d[1]] as Float, al[d[2]] as Float];
        let case = || format!("{:?}", a);
        let q = Point3::new(a[0], a[1], a[2]);
        let (fl, ce) = call(case, || (point::floor(&q), point::ceil(&q)))?;
        loc.execs += 2;
        for (j, (f, c)) in [(fl.x, ce.x), (fl.y, ce.y), (fl.z, ce.z)].iter().enumerate() {
            let x = a[j];
            if !(*f <= x && x - 1.0 < *f && *f == f.trunc()) || !(*c >= x && x + 1.0 > *c && *c == c.trunc()) {
                // at 1e9 in f32, x +- 1.0 is x itself
                if !(x.abs() > 1e8 && *f == x && *c == x) {
                    return bad(format!("floor {:?}, ceil {:?}", fl, ce), &case);
                }
            }
        }
        loc.state(h(&[a[0] as f64, a[1] as f64, a[2] as f64]));
        loc.tran(h(&[a[0] as f64, a[1] as f64, a[2] as f64]), 1, h(&[fl.x as f64, fl.y as f64, fl.z as f64]));
        Ok(())
    });
    let mut al: Vec<Float> = vec![0.0];
    for k in -40..=120 {
        for m in [1.0, 1.5, 1.9990234375] {
            al.push((2f64.powi(k) * m) as Float);
            al.push(-(2f64.powi(k) * m) as Float);
        }
    }
    for k in 0..=Float::MANTISSA_DIGITS as i32 {
        for h in [-0.5, 0.5, -0.25, 1.0] {
            al.push((2f64.powi(k) + h) as Float);
            al.push(-(2f64.powi(k) + h) as Float);
        }
    }
    let k = al.len() as u64;
    ctx.space("float-floor-ceil-scales", k * 3, "floor and ceil at every magnitude from 2^-40 to 2^121 and next to every power of two, on each axis", |i, loc| {
        let ax = (i % 3) as usize;
        let x = al[(i / 3) as usize];
        let mut a = [-0.5 as Float, 2.5, 1e6];
        a[ax] = x;
        let case = || format!("{:?}", a);
        let q = Point3::new(a[0], a[1], a[2]);
        let (fl, ce) = call(case, || (point::floor(&q), point::ceil(&q)))?;
        loc.execs += 2;
        let (g, c) = (arr(fl), arr(ce));
        for j in 0..3 {
            if g[j] != a[j].floor() || c[j] != a[j].ceil() {
                return bad(format!("floor {:?}, ceil {:?}", fl, ce), &case);
            }
        }
        loc.state((x as f64).to_bits());
        Ok(())
    });
    // lengths at every magnitude whose square is representable
    let top = 60;
    ctx.space("float-lengths", (2 * top + 1) * 8, "lengths of Pythagorean quadruples scaled by 2^-60 .. 2^60", |i, loc| {
        const Q: [[f64; 4]; 8] = [
            [1.0, 0.0, 0.0, 1.0],
            [0.0, 3.0, 4.0, 5.0],
            [1.0, 2.0, 2.0, 3.0],
            [2.0, -3.0, 6.0, 7.0],
            [-4.0, 4.0, 7.0, 9.0],
            [1.0, 4.0, -8.0, 9.0],
            [0.0, 0.0, -1.0, 1.0],
            [6.0, 10.0, 15.0, 19.0],
        ];
        let q = Q[(i % 8) as usize];
        let s = 2f64.powi((i / 8) as i32 - top as i32);
        let case = || format!("{:?} * {:e}", q, s);
        let v = v3(q[0] * s, q[1] * s, q[2] * s);
        let (l, l2, nl) = call(case, || (v.len(), v.len_sq(), pbrtrs::verif::normal::Normal3::from(v).len()))?;
        loc.execs += 3;
        if !close(l as f64, q[3] * s, 4.0) || !close(l2 as f64, q[3] * q[3] * s * s, 8.0) || !close(nl as f64, q[3] * s, 4.0) {
            return bad(format!("length {:e} / {:e}, squared {:e}", l, nl, l2), &case);
        }
        loc.state(h(&[q[0] * s, q[1] * s, q[2] * s]));
        Ok(())
    });
}

// ---------------------------------------------------------------- C20 (floats only)
#[cfg(feature = "p20")]
fn c20(ctx: &'static Ctx) {
    let co: Vec<f64> = vec![-8.0, -1.5, 0.0, 2.0, 9.25];
    let ts: Vec<f64> = vec![0.0, 1.0, 0.25, 0.5, 0.75, -1.0, 2.0, 0.1];
    let ex: Vec<i32> = vec![0, -60, -30, -20, -10, 10, 30, 60];
    let r = [5, 5, 5, 5, 5, 5, ex.len() as u64];
    let sub = if ctx.thorough { r.iter().product::<u64>() } else { r[..6].iter().product::<u64>() };
    let whole: u64 = r[..6].iter().product();
    // in the quick tier the other magnitudes get the boxes that are cubes of intervals
    let extra: Vec<u64> = if ctx.thorough {
        vec![]
    } else {
        (1..ex.len() as u64).flat_map(|e| (0..whole).filter(|i| { let d = digits(*i, &r[..6]); d[0] == d[1] && d[3] == d[4] }).map(move |i| e * whole + i).collect::<Vec<_>>()).collect()
    };
    ctx.space(
        "interpolation",
        sub + extra.len() as u64,
        &format!("every box over {:?}, and scaled by 2^k, k in {:?}, interpolated at every parameter triple over {:?}, and back", co, ex, ts),
        |i, loc| {
            let d = digits(if i < sub { i } else { extra[(i - sub) as usize] }, &r);
            let mag = 2f64.powi(ex[d[6]]);
            let a = [co[d[0]] * mag, co[d[1]] * mag, co[d[2]] * mag];
            let b = [co[d[3]] * mag, co[d[4]] * mag, co[d[5]] * mag];
            let l: Vec<f64> = (0..3).map(|k| a[k].min(b[k])).collect();
            let u: Vec<f64> = (0..3).map(|k| a[k].max(b[k])).collect();
            let bx = Bounds3::new(pf(&a), pf(&b));
            let s0 = mix(h(&l), h(&u));
            loc.state(s0);
            for k in 0..512usize {
                let t = [ts[k % 8], ts[k / 8 % 8], ts[k / 64]];
                let case = || format!("box {:?} .. {:?}, t = {:?}", l, u, t);
                let tp = pf(&t);
                let g = call(case, || boundingbox::lerp(&bx, &tp))?;
                let g3 = [g.x as f64, g.y as f64, g.z as f64];
                let o = call(case, || bx.offset(&g))?;
                let o3 = [o.x as f64, o.y as f64, o.z as f64];
                loc.execs += 2;
                loc.tran(s0, h(&t), h(&g3));
                for j in 0..3 {
                    let tj = t[j] as Float as f64;
                    let w = (1.0 - tj) * l[j] + tj * u[j];
                    let sz = (l[j].abs() + u[j].abs()) * tj.abs().max(1.0);
                    let ok = if t[j] == 0.0 || t[j] == 1.0 { g3[j] == w } else { (g3[j] - w).abs() <= 8.0 * EPS * sz };
                    if !ok {
                        return bad(format!("interpolated point {:?}, expected {} on axis {}", g3, w, j), &case);
                    }
                    let wo = if u[j] > l[j] { tj } else { 0.0 };
                    let so = if u[j] > l[j] { 16.0 * (sz + l[j].abs()) / (u[j] - l[j]) + 16.0 } else { 16.0 * sz };
                    if (o3[j] - wo).abs() > EPS * so {
                        return bad(format!("offset of the interpolated point is {:?}, expected {} on axis {}", o3, wo, j), &case);
                    }
                }
            }
            Ok(())
        },
    );
    let cs: Vec<f64> = vec![-1000.0, -8.0, -0.125, 0.0, 2.0, 3.0, 500.0];
    let n = cs.len() as u64;
    let se: Vec<i32> = vec![0, -50, -20, 20, 45];
    let ns = se.len() as u64;
    ctx.space("sphere", n.pow(6) * ns, &format!("bounding sphere of every box over {:?} times 2^k, k in {:?}", cs, se), |i, loc| {
        let d = digits(i, &[n, n, n, n, n, n, ns]);
        let mag = 2f64.powi(se[d[6]]);
        let a = [cs[d[0]] * mag, cs[d[1]] * mag, cs[d[2]] * mag];
        let b = [cs[d[3]] * mag, cs[d[4]] * mag, cs[d[5]] * mag];
        let case = || format!("box from corners {:?} and {:?}", a, b);
        let bx = Bounds3::new(pf(&a), pf(&b));
        let (c, rad) = call(case, || boundingbox::bounding_sphere(&bx))?;
        loc.execs += 1;
        let g = [c.x as f64, c.y as f64, c.z as f64];
        let mut l2 = 0.0;
        for k in 0..3 {
            let w = (a[k] + b[k]) / 2.0;
            if !((g[k] - w).abs() <= 4.0 * EPS * (a[k].abs() + b[k].abs())) {
                return bad(format!("centre {:?}, expected {} on axis {}", g, w, k), &case);
            }
            l2 += ((a[k] - b[k]) / 2.0).powi(2);
        }
        let wr = l2.sqrt();
        if !((rad as f64 - wr).abs() <= 16.0 * EPS * wr) {
            return bad(format!("radius {}, expected {}", rad, wr), &case);
        }
        loc.state(mix(h(&a), h(&b)));
        loc.tran(mix(h(&a), h(&b)), 1, h(&[g[0], g[1], g[2], rad as f64]));
        Ok(())
    });
}
fn pf(a: &[f64]) -> Point3<Float> {
    Point3::new(a[0] as Float, a[1] as Float, a[2] as Float)
}

// ---------------------------------------------------------------- C21
fn same3(g: [Float; 3], w: [f64; 3]) -> bool {
    (0..3).all(|k| g[k] as f64 == w[k])
}
fn arr(p: Point3<Float>) -> [Float; 3] {
    [p.x, p.y, p.z]
}
fn arv(p: Vector3<Float>) -> [Float; 3] {
    [p.x, p.y, p.z]
}
fn vf(a: &[f64]) -> Vector3<Float> {
    v3(a[0], a[1], a[2])
}
#[cfg(feature = "p21")]
fn c21(ctx: &'static Ctx) {
    let co: Vec<f64> = vec![-3.0, 0.0, 0.5, 8.0];
    let ts: Vec<f64> = vec![0.0, 1.0, -1.0, 0.5, 2.0, -4.0, 16.0, 0.125];
    let r = [4; 6];
    ctx.space(
        "rays",
        4u64.pow(6),
        &format!("every origin and direction over {:?}, evaluated at {:?}", co, ts),
        |i, loc| {
            let d = digits(i, &r);
            let o = [co[d[0]], co[d[1]], co[d[2]]];
            let v = [co[d[3]], co[d[4]], co[d[5]]];
            let case = || format!("origin {:?}, direction {:?}", o, v);
            let case: &dyn Fn() -> String = &case;
            loc.sample(|| case());
            let ray = call(case, || Ray::new_infinite(pf(&o), vf(&v)))?;
            if !(ray.t_max.is_infinite() && ray.t_max > 0.0) || ray.time != 0.0 || !same3(arr(ray.o), o) || !same3(arv(ray.d), v) {
                return bad(format!("new_infinite: t_max {}, time {}, o {:?}, d {:?}", ray.t_max, ray.time, ray.o, ray.d), case);
            }
            let lim = call(case, || Ray::new(pf(&o), vf(&v), 7.5, 0.25, Medium {}))?;
            if lim.t_max != 7.5 || lim.time != 0.25 || !same3(arr(lim.o), o) || !same3(arv(lim.d), v) {
                return bad(format!("new: t_max {}, time {}, o {:?}, d {:?}", lim.t_max, lim.time, lim.o, lim.d), case);
            }
            let s0 = mix(h(&o), h(&v));
            loc.state(s0);
            loc.execs += 2;
            for t in &ts {
                let w = [0, 1, 2].map(|k| o[k] + t * v[k]);
                for (n, rr) in [("infinite", &ray), ("limited", &lim)] {
                    let g = arr(call(case, || rr.at(*t as Float))?);
                    loc.execs += 1;
                    loc.tran(s0, t.to_bits(), h(&w));
                    if !same3(g, w) {
                        return bad(format!("{} ray at {}: got {:?}, expected {:?}", n, t, g, w), case);
                    }
                }
            }
            // evaluating does not change the ray
            if lim.t_max != 7.5 || !same3(arr(lim.o), o) || !same3(arv(lim.d), v) {
                return bad("evaluation changed the ray", case);
            }
            // a fresh differential
            let rd = call(case, || RayDifferential::new(Ray::new(pf(&o), vf(&v), 7.5, 0.25, Medium {})))?;
            loc.execs += 1;
            if rd.has_differentials
                || rd.ray.t_max != 7.5
                || rd.ray.time != 0.25
                || !same3(arr(rd.ray.o), o)
                || !same3(arv(rd.ray.d), v)
            {
                return bad("a fresh ray differential has differentials or another ray", case);
            }
            for (n, x) in [("x origin", arr(rd.rx_origin)), ("y origin", arr(rd.ry_origin)), ("x direction", arv(rd.rx_direction)), ("y direction", arv(rd.ry_direction))] {
                if x.iter().any(|c| *c != 0.0) {
                    return bad(format!("the auxiliary {} of a fresh ray differential is {:?}, not zero", n, x), case);
                }
            }
            Ok(())
        },
    );
    // limits and times survive
    let lm: Vec<Float> = vec![0.0, 1.0, 1e-3, 1e9, Float::INFINITY, -1.0];
    ctx.space("limits", 36, &format!("every limit and time over {:?}", lm), |i, loc| {
        let (a, b) = (lm[(i % 6) as usize], lm[(i / 6) as usize]);
        let case = || format!("t_max {}, time {}", a, b);
        let ray = call(case, || Ray::new(pf(&[1.0, 2.0, 3.0]), vf(&[4.0, 5.0, 6.0]), a, b, Medium {}))?;
        let g = arr(call(case, || ray.at(2.0))?);
        loc.execs += 2;
        loc.state(i);
        if ray.t_max != a || ray.time != b || !same3(g, [9.0, 12.0, 15.0]) {
            return bad(format!("t_max {}, time {}, at(2) {:?}", ray.t_max, ray.time, g), &case);
        }
        Ok(())
    });
    // scaling differentials: every word of scale factors
    let sc: Vec<f64> = vec![0.0, 1.0, 0.5, 2.0, -1.0, 4.0];
    let len: u32 = if ctx.thorough { 7 } else { 6 };
    let nw = fw::nwords(sc.len() as u64, len);
    // (main origin, main direction, rx origin, ry origin, rx direction, ry direction)
    let cfg: Vec<[[f64; 3]; 6]> = vec![
        [[0.0; 3], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.5, 0.0, 1.0], [0.0, 0.5, 1.0]],
        [[1.0, -2.0, 3.0], [4.0, 5.0, -6.0], [2.0, -2.5, 7.0], [-3.0, 8.0, 0.25], [4.5, -5.0, 6.0], [0.0, 1.0, 2.0]],
        [[8.0, 8.0, 8.0], [-1.0, 0.0, 0.0], [8.0, 8.0, 8.0], [0.0; 3], [-1.0, 0.0, 0.0], [0.0; 3]],
    ];
    ctx.space(
        "scale-words",
        nw * cfg.len() as u64 * 2,
        &format!("every sequence of up to {} scale factors over {:?}, applied to {} ray differentials", len, sc, cfg.len()),
        |i, loc| {
            let k = cfg.len() as u64;
            let c = cfg[(i % k) as usize];
            let has = i / k % 2 == 1;
            let mut w = vec![];
            fw::word(i / k / 2, sc.len() as u64, &mut w);
            let case = || format!("configuration {}, scales {:?}", i % k, w.iter().map(|x| sc[*x]).collect::<Vec<_>>());
            let case: &dyn Fn() -> String = &case;
            let mut rd = RayDifferential::new(Ray::new(pf(&c[0]), vf(&c[1]), 9.0, 0.5, Medium {}));
            rd.has_differentials = has;
            rd.rx_origin = pf(&c[2]);
            rd.ry_origin = pf(&c[3]);
            rd.rx_direction = vf(&c[4]);
            rd.ry_direction = vf(&c[5]);
            let mut s = 1.0;
            for x in &w {
                let from = mix(i % k, h(&[s]));
                call(case, || rd.scale_differentials(sc[*x] as Float))?;
                loc.execs += 1;
                s *= sc[*x];
                loc.state(mix(i % k, h(&[s])));
                loc.tran(from, *x as u64, mix(i % k, h(&[s])));
                // compare after every step
                let at = |m: [f64; 3], a: [f64; 3]| [0, 1, 2].map(|j| m[j] + s * (a[j] - m[j]));
                for (n, g, e) in [
                    ("rx_origin", arr(rd.rx_origin), at(c[0], c[2])),
                    ("ry_origin", arr(rd.ry_origin), at(c[0], c[3])),
                    ("rx_direction", arv(rd.rx_direction), at(c[1], c[4])),
                    ("ry_direction", arv(rd.ry_direction), at(c[1], c[5])),
                    ("ray.o", arr(rd.ray.o), c[0]),
                    ("ray.d", arv(rd.ray.d), c[1]),
                ] {
                    if !same3(g, e) {
                        return bad(format!("{} after total scale {}: got {:?}, expected {:?}", n, s, g, e), case);
                    }
                }
                if rd.has_differentials != has || rd.ray.t_max != 9.0 || rd.ray.time != 0.5 {
                    return bad("scaling changed has_differentials, t_max or time", case);
                }
            }
            Ok(())
        },
    );
    // each auxiliary moves by itself: one component at a time
    ctx.space("scale-components", 12 * 3 * 5, "one non-zero component of one auxiliary origin or direction at a time", |i, loc| {
        let which = (i % 12) as usize;
        let main = [[0.0; 3], [1.0, -2.0, 4.0], [-8.0, 0.5, 16.0]][(i / 12 % 3) as usize];
        let s = [0.5, 2.0, -1.0, 0.0, 3.0][(i / 36) as usize];
        let mut c = [main; 4];
        c[which / 3][which % 3] += 4.0;
        let case = || format!("main {:?}, auxiliaries {:?}, scale {}", main, c, s);
        let mut rd = RayDifferential::new(Ray::new_infinite(pf(&main), vf(&main)));
        rd.rx_origin = pf(&c[0]);
        rd.ry_origin = pf(&c[1]);
        rd.rx_direction = vf(&c[2]);
        rd.ry_direction = vf(&c[3]);
        call(case, || rd.scale_differentials(s as Float))?;
        loc.execs += 1;
        loc.state(i);
        for (k, g) in [arr(rd.rx_origin), arr(rd.ry_origin), arv(rd.rx_direction), arv(rd.ry_direction)].iter().enumerate() {
            let e = [0, 1, 2].map(|j| main[j] + s * (c[k][j] - main[j]));
            if !same3(*g, e) {
                return bad(format!("auxiliary {}: got {:?}, expected {:?}", k, g, e), &case);
            }
        }
        Ok(())
    });
    // auxiliaries that coincide with the main ray or with one another
    let al: [f64; 4] = [-1.0, 0.0, 1.0, 2.0];
    let r = [4, 4, 4, 4, 4, 4, 6, 3];
    ctx.space(
        "scale-lattice",
        r.iter().product(),
        &format!("every main ray and auxiliaries over {:?} on one axis, each scaled once, with and without the flag", al),
        |i, loc| {
            let d = digits(i, &r);
            let at = |k: usize| {
                let mut v = [0.0; 3];
                v[d[7]] = al[d[k]];
                v
            };
            let s = [0.0, 0.5, 1.0, 2.0, -1.0, 3.0][d[6]];
            let (o, dir) = (at(0), at(1));
            let aux = [at(2), at(3), at(4), at(5)];
            let case = || format!("origin {:?}, direction {:?}, auxiliaries {:?}, scale {}", o, dir, aux, s);
            for has in [false, true] {
                let mut rd = RayDifferential::new(Ray::new_infinite(pf(&o), vf(&dir)));
                rd.has_differentials = has;
                rd.rx_origin = pf(&aux[0]);
                rd.ry_origin = pf(&aux[1]);
                rd.rx_direction = vf(&aux[2]);
                rd.ry_direction = vf(&aux[3]);
                call(case, || rd.scale_differentials(s as Float))?;
                loc.execs += 1;
                let got = [arr(rd.rx_origin), arr(rd.ry_origin), arv(rd.rx_direction), arv(rd.ry_direction)];
                for k in 0..4 {
                    let m = if k < 2 { o } else { dir };
                    let e = [0, 1, 2].map(|j| m[j] + s * (aux[k][j] - m[j]));
                    if !same3(got[k], e) {
                        return bad(format!("auxiliary {}: got {:?}, expected {:?}", k, got[k], e), &case);
                    }
                }
                if rd.has_differentials != has || !same3(arr(rd.ray.o), o) || !same3(arv(rd.ray.d), dir) {
                    return bad("scaling changed the main ray or the flag", &case);
                }
            }
            loc.state(i);
            loc.tran(i / 6, d[6] as u64, h(&aux.concat()));
            Ok(())
        },
    );
    // rays and differentials at every magnitude, up to rounding
    let es: Vec<i32> = (-40..=40).step_by(5).collect();
    let ne = es.len() as u64;
    let r = [ne, ne, ne, 8];
    ctx.space("magnitudes", r.iter().product(), &format!("origin, direction and parameter at every magnitude 2^k, k in {:?}", es), |i, loc| {
        let d = digits(i, &r);
        let sg = |b: usize| if d[3] >> b & 1 == 1 { -1.0 } else { 1.0 };
        let o = [1.0, -0.5, 3.0].map(|x| x * sg(0) * 2f64.powi(es[d[0]]));
        let v = [-1.0, 0.25, 5.0].map(|x| x * sg(1) * 2f64.powi(es[d[1]]));
        let t = sg(2) * 2f64.powi(es[d[2]]);
        let case = || format!("origin {:?}, direction {:?}, t {}", o, v, t);
        let ray = Ray::new_infinite(pf(&o), vf(&v));
        let g = arr(call(case, || ray.at(t as Float))?);
        let mut rd = RayDifferential::new(Ray::new_infinite(pf(&o), vf(&o)));
        rd.rx_origin = pf(&v);
        rd.ry_origin = pf(&o);
        rd.rx_direction = vf(&v);
        rd.ry_direction = vf(&[0.0; 3]);
        call(case, || rd.scale_differentials(t as Float))?;
        loc.execs += 2;
        loc.state(i);
        for k in 0..3 {
            let sz = o[k].abs() + (t * v[k]).abs();
            let ok = |g: Float, w: f64, sz: f64| (g as f64 - w).abs() <= 8.0 * EPS * sz;
            if !ok(g[k], o[k] + t * v[k], sz) {
                return bad(format!("at: got {:?}, expected {} on axis {}", g, o[k] + t * v[k], k), &case);
            }
            let sz = (o[k].abs() + v[k].abs()) * (1.0 + t.abs());
            for (n, g, a) in [
                ("rx_origin", arr(rd.rx_origin)[k], v[k]),
                ("ry_origin", arr(rd.ry_origin)[k], o[k]),
                ("rx_direction", arv(rd.rx_direction)[k], v[k]),
                ("ry_direction", arv(rd.ry_direction)[k], 0.0),
            ] {
                let w = o[k] + t * (a - o[k]);
                if !ok(g, w, sz) {
                    return bad(format!("{}: got {}, expected {} on axis {}", n, g, w, k), &case);
                }
            }
        }
        Ok(())
    });
    // interpolation between points, and between numbers
    let pc: Vec<f64> = vec![-6.0, -0.5, 0.0, 1.0, 10.0];
    let lt: Vec<f64> = vec![0.0, 1.0, 0.5, 0.25, 0.75, -1.0, 2.0, 0.1, 0.9];
    ctx.space(
        "point-interpolation",
        5u64.pow(6),
        &format!("every pair of points over {:?}, interpolated at {:?}", pc, lt),
        |i, loc| {
            let d = digits(i, &[5; 6]);
            let a = [pc[d[0]], pc[d[1]], pc[d[2]]];
            let b = [pc[d[3]], pc[d[4]], pc[d[5]]];
            for t in &lt {
                let case = || format!("{:?} .. {:?} at {}", a, b, t);
                let g = arr(call(case, || point::lerp(*t as Float, &pf(&a), &pf(&b)))?);
                let t = *t as Float as f64;
                loc.execs += 1;
                loc.tran(mix(h(&a), h(&b)), t.to_bits(), h(&[g[0] as f64, g[1] as f64, g[2] as f64]));
                for k in 0..3 {
                    let w = (1.0 - t) * a[k] + t * b[k];
                    let sz = (a[k].abs() + b[k].abs()) * t.abs().max(1.0);
                    let n = call(case, || pbrtrs::verif::lerp(t as Float, a[k] as Float, b[k] as Float))? as f64;
                    let ends = t == 0.0 || t == 1.0;
                    for x in [g[k] as f64, n] {
                        if ends && x != w || (x - w).abs() > 8.0 * EPS * sz {
                            return bad(format!("got {:?} (component: {}), expected {} on axis {}", g, n, w, k), &case);
                        }
                    }
                }
            }
            loc.state(mix(h(&a), h(&b)));
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- C22
#[cfg(all(feature = "p22", coord_plain))]
fn frame(v: &Vector3<Float>) -> (Vector3<Float>, Vector3<Float>) {
    vector::coordinate_system(v)
}
#[cfg(all(feature = "p22", not(coord_plain)))]
fn frame(v: &Vector3<Float>) -> (Vector3<Float>, Vector3<Float>) {
    vector::coordinate_system::<Float>(v)
}
#[cfg(feature = "p22")]
fn frame_ok(d: [f64; 3], loc: &mut Local) -> Res {
    let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    let u = v3(d[0] / l, d[1] / l, d[2] / l);
    let case = || format!("direction {:?}, unit vector {:?}", d, u);
    let case: &dyn Fn() -> String = &case;
    let (b, c) = call(case, || frame(&u))?;
    loc.execs += 1;
    let a = [u.x as f64, u.y as f64, u.z as f64];
    let b = [b.x as f64, b.y as f64, b.z as f64];
    let c = [c.x as f64, c.y as f64, c.z as f64];
    loc.state(h(&a));
    loc.tran(h(&a), 1, mix(h(&b), h(&c)));
    let dot = |x: &[f64; 3], y: &[f64; 3]| x[0] * y[0] + x[1] * y[1] + x[2] * y[2];
    let tol = 32.0 * EPS;
    for (n, x) in [("second", &b), ("third", &c)] {
        if !((dot(x, x) - 1.0).abs() <= tol) {
            return bad(format!("the {} vector {:?} has squared length {}", n, x, dot(x, x)), case);
        }
    }
    for (n, x, y) in [("first and second", &a, &b), ("first and third", &a, &c), ("second and third", &b, &c)] {
        if !(dot(x, y).abs() <= tol) {
            return bad(format!("{} are not perpendicular: {:?} . {:?} = {}", n, x, y, dot(x, y)), case);
        }
    }
    let cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    if !(0..3).all(|k| (cr[k] - c[k]).abs() <= tol) {
        return bad(format!("the third vector {:?} is not the cross product {:?}", c, cr), case);
    }
    Ok(())
}
#[cfg(feature = "p22")]
fn c22(ctx: &'static Ctx) {
    let n: i64 = if ctx.thorough { 160 } else { 60 };
    let k = (2 * n + 1) as u64;
    ctx.space("lattice", k.pow(3), &format!("the direction of every non-zero lattice vector over -{0}..{0}", n), |i, loc| {
        let d = digits(i, &[k; 3]);
        let v = [d[0] as f64 - n as f64, d[1] as f64 - n as f64, d[2] as f64 - n as f64];
        if v == [0.0; 3] {
            return Ok(());
        }
        loc.sample(|| format!("{:?}", v));
        frame_ok(v, loc)
    });
    // near the axes and the planes: components at every pair of scales
    let ex: Vec<i32> = (0..=40).map(|e| -e * 3).collect();
    let ne = ex.len() as u64;
    ctx.space(
        "scales",
        3 * 8 * ne * ne,
        "one component 1, the others 2^-a and 2^-b, a and b up to 120 in steps of 3, all signs, all axes",
        |i, loc| {
            let d = digits(i, &[3, 8, ne, ne]);
            let mut v = [0.0; 3];
            v[d[0]] = 1.0;
            v[(d[0] + 1) % 3] = 2f64.powi(ex[d[2]]);
            v[(d[0] + 2) % 3] = 2f64.powi(ex[d[3]]);
            for j in 0..3 {
                if d[1] >> j & 1 == 1 {
                    v[j] = -v[j];
                }
            }
            frame_ok(v, loc)
        },
    );
    // |x| = |y| and its neighbours, where the construction switches
    ctx.space(
        "switch",
        4 * 9 * 9 * 2001,
        "|x| and |y| equal or within four units in the last place of each other, z sweeping",
        |i, loc| {
            let d = digits(i, &[4, 9, 9, 2001]);
            let z = (d[3] as f64 - 1000.0) / 500.0;
            let x = 1.0 + (d[1] as f64 - 4.0) * EPS;
            let y = 1.0 + (d[2] as f64 - 4.0) * EPS;
            frame_ok([if d[0] & 1 == 1 { -x } else { x }, if d[0] & 2 == 2 { -y } else { y }, z], loc)
        },
    );
    // a fine grid of directions
    let (na, nb) = if ctx.thorough { (12000u64, 6000u64) } else { (2000, 1000) };
    ctx.space("sphere", na * (nb + 1), &format!("{} longitudes by {} latitudes", na, nb + 1), |i, loc| {
        let a = (i % na) as f64 / na as f64 * std::f64::consts::TAU;
        let b = (i / na) as f64 / nb as f64 * std::f64::consts::PI;
        frame_ok([b.sin() * a.cos(), b.sin() * a.sin(), b.cos()], loc)
    });
}

// ---------------------------------------------------------------- C23
#[cfg(feature = "p23")]
fn c23(ctx: &'static Ctx) {
    use pbrtrs::verif::{lerp, pmax, pmin, ElemType, HasNan, ToFloat};
    let nan_ok = |p: [Float; 3], loc: &mut Local| -> Res {
        loc.execs += 1;
        let want = p.iter().any(|x| x != x);
        let case = || format!("point {:?} (bits {:x?})", p, p.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        let got = call(case, || Point3::new(p[0], p[1], p[2]).has_nan())?;
        if got != want {
            return bad(format!("has_nan is {}", got), &case);
        }
        Ok(())
    };
    // every bit pattern
    #[cfg(not(feature = "f64"))]
    ctx.space("nan-patterns", 3 << 16, "every bit pattern of a coordinate (65536 per case), at each of 3 places", |i, loc| {
        let hi = (i & 0xffff) as u32;
        let at = (i >> 16) as usize;
        let c0 = mix(1, i);
        loc.state(c0);
        for lo in 0..1u32 << 16 {
            let mut p = [0.5; 3];
            p[at] = Float::from_bits(hi << 16 | lo);
            nan_ok(p, loc)?;
        }
        loc.tran(c0, 1, mix(c0, 2));
        Ok(())
    });
    #[cfg(feature = "f64")]
    ctx.space("nan-patterns", 3 << 16, "every pattern of the upper 16 bits of a coordinate with 0, 1 and 2 of the lower 48 bits set, at each of 3 places", |i, loc| {
        let hi = (i & 0xffff) << 48;
        let at = (i >> 16) as usize;
        let c0 = mix(1, i);
        loc.state(c0);
        for a in 0..49 {
            for b in 0..=a {
                let mut p = [0.5; 3];
                p[at] = Float::from_bits(hi | (1u64 << a >> 1) | (1u64 << b >> 1));
                nan_ok(p, loc)?;
            }
        }
        loc.tran(c0, 1, mix(c0, 2));
        Ok(())
    });
    let tiny = Float::from_bits(1);
    let spec: Vec<Float> = vec![
        0.0, -0.0, 1.0, -1.0, 0.5, 1e30, -1e30, tiny, -tiny, Float::MIN_POSITIVE, Float::MAX, Float::MIN, Float::INFINITY, Float::NEG_INFINITY, Float::NAN, -Float::NAN, Float::from_bits(Float::INFINITY.to_bits() + 1),
        Float::from_bits(Float::NEG_INFINITY.to_bits() + 1), 3.0, -7.25,
    ];
    let n = spec.len() as u64;
    ctx.space("nan-points", n * n * n, "all points over 20 special values", |i, loc| {
        let d = digits(i, &[n, n, n]);
        loc.state(mix(2, i));
        nan_ok([spec[d[0]], spec[d[1]], spec[d[2]]], loc)
    });
    let iv: Vec<i64> = vec![0, 1, -1, 2, 7, 1 << 24, (1 << 53) + 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 0x7ff8 << 48, 0x7fc00000, -(1 << 40)];
    let ni = iv.len() as u64;
    ctx.space("nan-integers", ni * ni * ni, "all integer points over 14 values", |i, loc| {
        let d = digits(i, &[ni, ni, ni]);
        loc.execs += 1;
        loc.state(mix(3, i));
        let case = || format!("{:?}", [iv[d[0]], iv[d[1]], iv[d[2]]]);
        if call(case, || Point3::new(iv[d[0]], iv[d[1]], iv[d[2]]).has_nan())? {
            return bad("has_nan of an integer point is true", &case);
        }
        Ok(())
    });
    // least and greatest
    fn extremes<T: PartialOrd + Copy + std::fmt::Debug + std::panic::RefUnwindSafe>(v: &[T], loc: &mut Local) -> Res {
        use pbrtrs::verif::{pmax, pmin};
        loc.execs += 2;
        let case = || format!("{} elements: {}", v.len(), fw::short(&format!("{:?}", v)));
        let lo = call(case, || pmin(v))?;
        let hi = call(case, || pmax(v))?;
        for (what, x, ok) in [("pmin", lo, v.iter().all(|e| lo <= *e)), ("pmax", hi, v.iter().all(|e| hi >= *e))] {
            if !ok || !v.iter().any(|e| *e == x) {
                return bad(format!("{} gives {:?}", what, x), &case);
            }
        }
        Ok(())
    }
    let _ = (pmin::<i64>, pmax::<i64>);
    let fl: Vec<Float> = spec.iter().cloned().filter(|x| x == x).collect();
    let fs: Vec<Float> = vec![Float::NEG_INFINITY, -1.0, -tiny, -0.0, 0.0, tiny, 1.0, Float::MAX, Float::INFINITY];
    let is: Vec<i64> = vec![i64::MIN, -5, -1, 0, 1, 2, 5, i64::MAX - 1, i64::MAX];
    let l = if ctx.thorough { 7 } else { 6 };
    let nw = fw::nwords(9, l);
    ctx.space("lists", nw * 2, "all non-empty lists up to length 6 (7) over 9 values, floating-point and integer", |i, loc| {
        let mut w = vec![];
        fw::word(i % nw, 9, &mut w);
        if w.is_empty() {
            return Ok(());
        }
        if w.len() < 5 {
            let s = mix(4, i);
            loc.state(s);
            loc.tran(mix(4, i / 9), (i % 9) as u64, s);
        }
        if i < nw {
            extremes(&w.iter().map(|c| fs[*c]).collect::<Vec<_>>(), loc)
        } else {
            extremes(&w.iter().map(|c| is[*c]).collect::<Vec<_>>(), loc)
        }
    });
    ctx.space("long-lists", 200 * 200 * 6, "an extreme element at every place of lists of length up to 200, ascending, descending and level", |i, loc| {
        let d = digits(i, &[200, 200, 6]);
        if d[1] > d[0] {
            return Ok(());
        }
        let step = [0.0, 1.0, -1.0][d[2] % 3];
        let mut v: Vec<Float> = (0..=d[0]).map(|k| 1000.0 + step * k as Float).collect();
        v[d[1]] = if d[2] < 3 { -1e4 } else { 1e4 };
        extremes(&v, loc)?;
        extremes(&v.iter().map(|x| *x as i64).collect::<Vec<_>>(), loc)
    });
    // integers as floating-point numbers
    let conv = |x: i64, loc: &mut Local| -> Res {
        loc.execs += 3;
        let case = || format!("integer {}", x);
        let want: Float = format!("{}", x).parse().unwrap();
        let a = call(case, || x.to_float())?;
        let b = call(case, || <Float as ElemType>::from_int(x as isize))?;
        let c = call(case, || <i64 as ElemType>::from_int(x as isize))?;
        if a != want || b != want {
            return bad(format!("as floating point {:?} and {:?}, nearest is {:?}", a, b, want), &case);
        }
        if c != x {
            return bad(format!("as integer {}", c), &case);
        }
        Ok(())
    };
    let r: u64 = if ctx.thorough { 1 << 22 } else { 1 << 19 };
    ctx.space("small-integers", 2 * r + 1, "all integers within 2^19 (2^22)", |i, loc| conv(i as i64 - r as i64, loc));
    ctx.space("integer-bits", 63 * 63 * 63 * 3 * 2, "all integers with up to three bits set, plus -1, 0 and 1, both signs", |i, loc| {
        let d = digits(i, &[63, 63, 63, 3, 2]);
        if d[1] > d[0] || d[2] > d[1] {
            return Ok(());
        }
        loc.state(mix(5, i));
        let x = (1i64 << d[0] | 1i64 << d[1] | 1i64 << d[2]).wrapping_add(d[3] as i64 - 1);
        conv(if d[4] == 1 { x.wrapping_neg() } else { x }, loc)
    });
    ctx.space("floats-as-floats", n * n, "special values converted, and the extremes of the type against them", |i, loc| {
        loc.execs += 1;
        let x = spec[(i / n) as usize];
        let case = || format!("{:?}", x);
        let y = call(case, || x.to_float())?;
        if !(y == x || x != x && y != y) {
            return bad(format!("to_float gives {:?}", y), &case);
        }
        if x == x && !(<Float as ElemType>::max_value() >= x && <Float as ElemType>::min_value() <= x) {
            return bad("outside the extreme values of its type", &case);
        }
        let k = iv[(i % ni) as usize];
        if !(<i64 as ElemType>::max_value() >= k && <i64 as ElemType>::min_value() <= k) {
            return bad(format!("{} is outside the extreme values of its type", k), &case);
        }
        Ok(())
    });
    // interpolation
    let fin: Vec<Float> = fl.iter().cloned().filter(|x| x.abs() <= 1e30).chain([0.1, -0.3, 1e-5, 1024.0, -1e7, 1e8]).collect();
    let ts: Vec<Float> = (0..=64).map(|k| k as Float / 64.0).chain([-1.0, -0.5, 1.5, 2.0, 10.0, -10.0, 1e-6, 1e-3, 0.1, 0.3, 0.7, 0.9, 0.999, 1.0 - Float::EPSILON, 1.0 + Float::EPSILON, tiny]).collect();
    let (nf, nt) = (fin.len() as u64, ts.len() as u64);
    ctx.space("interpolation", nf * nf * nt, "all pairs of 20 values at 81 parameters", |i, loc| {
        let d = digits(i, &[nf, nf, nt]);
        let (a, b, t) = (fin[d[0]], fin[d[1]], ts[d[2]]);
        loc.execs += 1;
        loc.state(mix(6, i / nt));
        let case = || format!("from {:?} to {:?} at {:?}", a, b, t);
        let got = call(case, || lerp(t, a, b))? as f64;
        let (a, b, t) = (a as f64, b as f64, t as f64);
        let want = (1.0 - t) * a + t * b;
        let tol = 8.0 * EPS * (1.0 + t.abs()) * (a.abs() + b.abs()) + 4.0 * tiny as f64;
        if !((got - want).abs() <= tol) {
            return bad(format!("gives {:?}, not {:?}", got, want), &case);
        }
        Ok(())
    });
    let g: u64 = if ctx.thorough { 200 } else { 60 };
    ctx.space("interpolation-grid", (2 * g + 1) * (2 * g + 1) * 33, "all pairs of integers within 60 (200) at 33 parameters: exact", |i, loc| {
        let d = digits(i, &[2 * g + 1, 2 * g + 1, 33]);
        let (a, b, t) = (d[0] as i64 - g as i64, d[1] as i64 - g as i64, d[2] as i64);
        loc.execs += 1;
        let case = || format!("from {} to {} at {}/32", a, b, t);
        let got = call(case, || lerp(t as Float / 32.0, a as Float, b as Float))?;
        let want = ((32 - t) * a + t * b) as Float / 32.0;
        if got != want {
            return bad(format!("gives {:?}, not {:?}", got, want), &case);
        }
        Ok(())
    });
}
