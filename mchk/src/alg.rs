// Included once per element type (see main.rs): `T`, `INT` and `NAME` are
// defined by the including module.
use crate::util::*;
use fw::{digits, mix, Ctx, Local, Res, Viol};
#[cfg(any(feature = "p17", feature = "p20"))]
use pbrtrs::verif::boundingbox::Bounds3;
use pbrtrs::verif::matrix::Matrix4;
#[cfg(feature = "p19")]
use pbrtrs::verif::normal::Normal3;
use pbrtrs::verif::point::{Point2, Point3};
use pbrtrs::verif::vector::{Vector2, Vector3};

type A3 = [T; 3];

fn f(x: T) -> f64 {
    x as f64
}
fn key(v: &[T]) -> u64 {
    let mut x = 0x33;
    for a in v {
        x = mix(x, if INT { *a as i64 as u64 } else { (*a as f64 + 0.0).to_bits() });
    }
    x
}
fn eq(a: T, b: T) -> bool {
    a == b
}
/// equal up to a few roundings (exactly equal for integers)
fn about(a: T, b: T) -> bool {
    a == b || !INT && close(f(a), f(b), 4.0)
}
fn v(a: A3) -> Vector3<T> {
    Vector3::new(a[0], a[1], a[2])
}
#[cfg(feature = "p19")]
fn n(a: A3) -> Normal3<T> {
    Normal3::new(a[0], a[1], a[2])
}
fn p(a: A3) -> Point3<T> {
    Point3::new(a[0], a[1], a[2])
}
fn va(a: Vector3<T>) -> A3 {
    [a.x, a.y, a.z]
}
#[cfg(feature = "p19")]
fn na(a: Normal3<T>) -> A3 {
    [a.x, a.y, a.z]
}
fn pa(a: Point3<T>) -> A3 {
    [a.x, a.y, a.z]
}
fn map(a: A3, g: impl Fn(T) -> T) -> A3 {
    [g(a[0]), g(a[1]), g(a[2])]
}
fn zip(a: A3, b: A3, g: impl Fn(T, T) -> T) -> A3 {
    [g(a[0], b[0]), g(a[1], b[1]), g(a[2], b[2])]
}
fn lo(a: T, b: T) -> T {
    if b < a {
        b
    } else {
        a
    }
}
fn hi(a: T, b: T) -> T {
    if b > a {
        b
    } else {
        a
    }
}
fn neg(a: T) -> T {
    (0 as T) - a
}
fn absv(a: T) -> T {
    if a < 0 as T {
        neg(a)
    } else {
        a
    }
}

fn want3(op: &str, got: A3, want: A3, same: fn(T, T) -> bool, case: &dyn Fn() -> String) -> Res {
    for i in 0..3 {
        if !same(got[i], want[i]) {
            return Err(Viol::new(format!("{} {}: got {:?}, expected {:?}", NAME, op, got, want), case()));
        }
    }
    Ok(())
}
fn want1(op: &str, got: T, want: T, same: fn(T, T) -> bool, case: &dyn Fn() -> String) -> Res {
    if !same(got, want) {
        return Err(Viol::new(format!("{} {}: got {:?}, expected {:?}", NAME, op, got, want), case()));
    }
    Ok(())
}
fn ensure(ok: bool, what: impl FnOnce() -> String, case: &dyn Fn() -> String) -> Res {
    if ok {
        Ok(())
    } else {
        Err(Viol::new(format!("{} {}", NAME, what()), case()))
    }
}

/// alphabets of exact values (halves and quarters when T is a float)
fn small() -> Vec<T> {
    if INT {
        [-7, -2, -1, 0, 1, 3, 4].iter().map(|x| *x as T).collect()
    } else {
        // all exactly representable; products and sums of three stay exact
        [-28.0, -6.0, -1.0, 0.0, 3.0, 4.0, 10.0f64].iter().map(|x| (*x / 4.0) as T).collect()
    }
}
/// values that do not survive a detour through a narrower type
fn wide() -> Vec<T> {
    if INT {
        let b = (1i64 << 53) + 1;
        [b, -b - 2, b + 2, -1, 0, (1 << 61) + 1, -(1 << 61) - 3].iter().map(|x| *x as T).collect()
    } else {
        let e = EPS as T;
        let one = 1 as T;
        vec![one + e, neg(one + e + e), neg(one - e / 2 as T), (1u64 << 20) as T, neg((3u64 << 18) as T), 0 as T, one / (1u64 << 30) as T]
    }
}
/// values whose pairwise products still fit
fn mid() -> Vec<T> {
    if INT {
        [(1i64 << 30) + 1, -(1 << 30) - 3, (1 << 29) + 7, -1, 0].iter().map(|x| *x as T).collect()
    } else {
        [2049.0, -1025.0, 512.0, -1.0, 0.0f64].iter().map(|x| *x as T).collect()
    }
}

fn pick(alpha: &[T], d: &[usize]) -> A3 {
    [alpha[d[0]], alpha[d[1]], alpha[d[2]]]
}

// ---------------------------------------------------------------- C19
#[cfg(feature = "p19")]
/// `products`: products of components fit; `exact`: and so do sums of a and b
fn pair_ops(a: A3, b: A3, products: bool, exact: bool, loc: &mut Local) -> Res {
    let case = || format!("a = {:?}, b = {:?}", a, b);
    let case: &dyn Fn() -> String = &case;
    let ka = mix(key(&a), key(&b));
    loc.state(key(&a));
    loc.state(key(&b));
    let mut op = 0u64;
    macro_rules! c3 {
        ($name:expr, $got:expr, $want:expr) => {{
            let got = call(case, || $got)?;
            want3($name, got, $want, eq, case)?;
            loc.execs += 1;
            op += 1;
            loc.tran(ka, op, key(&got));
        }};
    }
    macro_rules! c1 {
        ($name:expr, $got:expr, $want:expr) => {{
            let got = call(case, || $got)?;
            want1($name, got, $want, eq, case)?;
            loc.execs += 1;
            op += 1;
            loc.tran(ka, op, key(&[got]));
        }};
    }
    c3!("vector +", va(v(a) + v(b)), zip(a, b, |x, y| x + y));
    c3!("vector -", va(v(a) - v(b)), zip(a, b, |x, y| x - y));
    c3!("normal +", na(n(a) + n(b)), zip(a, b, |x, y| x + y));
    c3!("normal -", na(n(a) - n(b)), zip(a, b, |x, y| x - y));
    c3!("point + vector", pa(p(a) + v(b)), zip(a, b, |x, y| x + y));
    c3!("point - vector", pa(p(a) - v(b)), zip(a, b, |x, y| x - y));
    c3!("point - point", va(p(a) - p(b)), zip(a, b, |x, y| x - y));
    c3!("&point - point", va(&p(a) - p(b)), zip(a, b, |x, y| x - y));
    c3!("vector min", va(v(a).min(&v(b))), zip(a, b, lo));
    c3!("vector max", va(v(a).max(&v(b))), zip(a, b, hi));
    c3!("normal min", na(n(a).min(&n(b))), zip(a, b, lo));
    c3!("normal max", na(n(a).max(&n(b))), zip(a, b, hi));
    c3!("point min", pa(p(a).min(&p(b))), zip(a, b, lo));
    c3!("point max", pa(p(a).max(&p(b))), zip(a, b, hi));
    if products {
        let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
        let cross = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        if exact {
            c3!("p + (q - p)", pa(p(a) + (p(b) - p(a))), b);
        }
        c1!("vector dot", v(a).dot(&v(b)), dot);
        c1!("normal dot", n(a).dot(&n(b)), dot);
        c3!("vector cross", va(v(a).cross(&v(b))), cross);
        c3!("normal cross", na(n(a).cross(&n(b))), cross);
        for (name, got) in [
            ("vector face_forward", call(case, || va(v(a).face_forward(&v(b))))?),
            ("normal face_forward", call(case, || na(n(a).face_forward(&n(b))))?),
        ] {
            loc.execs += 1;
            op += 1;
            loc.tran(ka, op, key(&got));
            let d = got[0] * b[0] + got[1] * b[1] + got[2] * b[2];
            let flipped = map(a, neg);
            // not touched unless it faces away
            let keep = dot >= 0 as T && got == a;
            ensure(
                (got == a || got == flipped) && d >= 0 as T && (keep || dot <= 0 as T),
                || format!("{}: got {:?}, whose dot product with the second is {:?}", name, got, d),
                case,
            )?;
        }
    }
    Ok(())
}

#[cfg(feature = "p19")]
fn single_ops(a: A3, products: bool, loc: &mut Local) -> Res {
    let case = || format!("a = {:?}", a);
    let case: &dyn Fn() -> String = &case;
    let ka = key(&a);
    loc.state(ka);
    let mut op = 1000u64;
    macro_rules! c3 {
        ($name:expr, $got:expr, $want:expr) => {{
            let got = call(case, || $got)?;
            want3($name, got, $want, eq, case)?;
            loc.execs += 1;
            op += 1;
            loc.tran(ka, op, key(&got));
        }};
    }
    c3!("-vector", va(-v(a)), map(a, neg));
    c3!("-&vector", va(-&v(a)), map(a, neg));
    c3!("-normal", na(-n(a)), map(a, neg));
    c3!("-&normal", na(-&n(a)), map(a, neg));
    c3!("point abs", pa(p(a).abs()), map(a, absv));
    c3!("vector -> point", pa(Point3::from(v(a))), a);
    c3!("point -> vector", va(Vector3::from(p(a))), a);
    c3!("vector -> normal", na(Normal3::from(v(a))), a);
    c3!("vector index", [v(a)[0], v(a)[1], v(a)[2]], a);
    c3!("normal index", [n(a)[0], n(a)[1], n(a)[2]], a);
    let q = call(case, || Point2::from(p(a)))?;
    ensure(q.x == a[0] && q.y == a[1], || format!("point -> point2: got {:?}", q), case)?;
    let q = call(case, || Point2::new(a[0], a[1]).abs())?;
    ensure(q.x == absv(a[0]) && q.y == absv(a[1]), || format!("point2 abs: got {:?}", q), case)?;
    let w = Vector2::new(a[0], a[1]);
    let q = call(case, || (w[0], w[1]))?;
    ensure(q == (a[0], a[1]), || format!("vector2 index: got {:?}", q), case)?;
    for (i, j, k) in (0..27).map(|i| (i % 3, i / 3 % 3, i / 9)) {
        c3!("vector permute", va(v(a).permute(i, j, k)), [a[i], a[j], a[k]]);
        c3!("normal permute", na(n(a).permute(i, j, k)), [a[i], a[j], a[k]]);
    }
    let mn = lo(lo(a[0], a[1]), a[2]);
    let mx = hi(hi(a[0], a[1]), a[2]);
    for (name, got, want) in [
        ("vector min_component", call(case, || v(a).min_component())?, mn),
        ("vector max_component", call(case, || v(a).max_component())?, mx),
        ("normal min_component", call(case, || n(a).min_component())?, mn),
        ("normal max_component", call(case, || n(a).max_component())?, mx),
    ] {
        want1(name, got, want, eq, case)?;
    }
    for (name, d) in [
        ("vector max_dimension", call(case, || v(a).max_dimension())?),
        ("normal max_dimension", call(case, || n(a).max_dimension())?),
    ] {
        ensure(d < 3 && a[d] == mx, || format!("{}: got {}", name, d), case)?;
    }
    loc.execs += 9;
    if products {
        let l2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
        want1("vector len_sq", call(case, || v(a).len_sq())?, l2, eq, case)?;
        want1("normal len_sq", call(case, || n(a).len_sq())?, l2, eq, case)?;
        let l = f(l2).sqrt();
        for (name, got) in
            [("vector len", call(case, || v(a).len())?), ("normal len", call(case, || n(a).len())?)]
        {
            ensure(close(got as f64, l, 4.0), || format!("{}: got {:?}, expected {:?}", name, got, l), case)?;
        }
        loc.execs += 4;
    }
    Ok(())
}

#[cfg(feature = "p19")]
fn scalar_ops(a: A3, s: T, loc: &mut Local) -> Res {
    let case = || format!("a = {:?}, s = {:?}", a, s);
    let case: &dyn Fn() -> String = &case;
    let ka = mix(key(&a), key(&[s]));
    let mut op = 2000u64;
    macro_rules! c3 {
        ($name:expr, $got:expr, $want:expr, $cmp:expr) => {{
            let got = call(case, || $got)?;
            want3($name, got, $want, $cmp, case)?;
            loc.execs += 1;
            op += 1;
            loc.tran(ka, op, key(&got));
        }};
    }
    let m = map(a, |x| x * s);
    c3!("vector * s", va(v(a) * s), m, eq);
    c3!("&vector * s", va(&v(a) * s), m, eq);
    c3!("normal * s", na(n(a) * s), m, eq);
    c3!("&normal * s", na(&n(a) * s), m, eq);
    c3!("point * s", pa(p(a) * s), m, eq);
    c3!("&point * s", pa(&p(a) * s), m, eq);
    if s != 0 as T {
        let d = map(a, |x| x / s);
        c3!("vector / s", va(v(a) / s), d, about);
        c3!("normal / s", na(n(a) / s), d, about);
        c3!("point / s", pa(p(a) / s), d, about);
        let q = call(case, || Vector2::new(a[0], a[1]) / s)?;
        ensure(
            about(q.x, d[0]) && about(q.y, d[1]),
            || format!("vector2 / s: got {:?}, expected {:?}", (q.x, q.y), (d[0], d[1])),
            case,
        )?;
        let q = call(case, || Vector2::new(a[1], a[2]) / s)?;
        ensure(
            about(q.x, d[1]) && about(q.y, d[2]),
            || format!("vector2 / s: got {:?}, expected {:?}", (q.x, q.y), (d[1], d[2])),
            case,
        )?;
        c3!("(vector * s) / s", va(v(a) * s / s), a, about);
        c3!("(normal * s) / s", na(n(a) * s / s), a, about);
        c3!("(point * s) / s", pa(p(a) * s / s), a, about);
        loc.execs += 2;
    }
    Ok(())
}

#[cfg(feature = "p19")]
pub fn c19(ctx: &'static Ctx) {
    for (tag, alpha, prod) in [("small", small(), true), ("mid", mid(), true), ("wide", wide(), false)] {
        let k = alpha.len() as u64;
        let r6 = [k; 6];
        ctx.space(
            &format!("{}-pairs-{}", NAME, tag),
            k.pow(6),
            &format!("every ordered pair of 3-component values over {:?}, 21 binary operations each", alpha),
            |i, loc| {
                let d = digits(i, &r6);
                let (a, b) = (pick(&alpha, &d[..3]), pick(&alpha, &d[3..]));
                loc.sample(|| format!("{:?} {:?}", a, b));
                pair_ops(a, b, prod, prod, loc)
            },
        );
        ctx.space(
            &format!("{}-singles-{}", NAME, tag),
            k.pow(3),
            "every 3-component value: unary operations, conversions, indices, all 27 permutations",
            |i, loc| {
                let d = digits(i, &r6[..3]);
                single_ops(pick(&alpha, &d), prod, loc)
            },
        );
    }
    // scalars for scaling and division
    let scal: Vec<T> = if INT {
        [-9, -4, -3, -2, -1, 0, 1, 2, 3, 5, 8, 1000].iter().map(|x| *x as T).collect()
    } else {
        let mut s: Vec<T> =
            [-9.0, -3.0, -2.0, -1.0, -0.25, 0.0, 0.1, 0.5, 1.0, 3.0, 7.0, 8.0, 10.0, 1e-6, 1e6f64].iter().map(|x| *x as T).collect();
        for k in 0..60 {
            s.push((1u64 << k) as T);
            s.push(neg(1 as T / (1u64 << k) as T));
        }
        s
    };
    let comp: Vec<T> = if INT {
        [-100, -7, -5, -1, 0, 1, 2, 6, 13].iter().map(|x| *x as T).collect()
    } else {
        [-7.0, -2.5, -1.0, 0.0, 0.1, 0.75, 1.0, 6.0, 13.0f64].iter().map(|x| *x as T).collect()
    };
    let rs = [comp.len() as u64, comp.len() as u64, comp.len() as u64, scal.len() as u64];
    ctx.space(
        &format!("{}-scalars", NAME),
        rs.iter().product(),
        &format!("every 3-component value over {:?} scaled and divided by {} scalars", comp, scal.len()),
        |i, loc| {
            let d = digits(i, &rs);
            scalar_ops(pick(&comp, &d[..3]), scal[d[3]], loc)
        },
    );
    {
        let m = if ctx.thorough { 7 } else { 4 };
        let alpha: Vec<T> = (-m..=m).map(|x| x as T).collect();
        let r6 = [alpha.len() as u64; 6];
        ctx.space(
            &format!("{}-pairs-lattice", NAME),
            (alpha.len() as u64).pow(6),
            &format!("every ordered pair of 3-component values over -{0}..{0}", m),
            |i, loc| {
                let d = digits(i, &r6);
                pair_ops(pick(&alpha, &d[..3]), pick(&alpha, &d[3..]), true, true, loc)
            },
        );
    }
}

/// 2^k as T (k >= 0 for integers)
fn pow2(k: i32) -> T {
    if INT {
        (1u64 << k) as T
    } else {
        2f64.powi(k) as T
    }
}
#[cfg(feature = "p19")]
pub fn c19_scales(ctx: &'static Ctx) {
    const SH: [[i64; 3]; 9] =
        [[1, 0, 0], [0, -1, 0], [0, 0, 1], [1, 1, 0], [2, -3, 5], [-1, 2, 4], [3, 3, -3], [-7, 0, 1], [0, 5, -6]];
    let ks: Vec<i32> = if INT { (0..=28).collect() } else { (-50..=50).step_by(if ctx.thorough { 1 } else { 2 }).collect() };
    let nk = ks.len() as u64;
    let r = [9, 9, nk, nk];
    let sc = |d: usize, k: i32| SH[d].map(|x| (x as T) * pow2(k));
    ctx.space(
        &format!("{}-pairs-scales", NAME),
        r.iter().product(),
        &format!("9 shapes by 9 shapes, each scaled by every 2^k, k in {}..{}", ks[0], ks[ks.len() - 1]),
        |i, loc| {
            let d = digits(i, &r);
            pair_ops(sc(d[0], ks[d[2]]), sc(d[1], ks[d[3]]), true, INT, loc)
        },
    );
    let r = [9, nk];
    ctx.space(&format!("{}-singles-scales", NAME), r.iter().product(), "the same shapes by themselves", |i, loc| {
        let d = digits(i, &r);
        single_ops(sc(d[0], ks[d[1]]), true, loc)
    });
    // each component at its own magnitude
    let mut co: Vec<T> = vec![0 as T];
    for k in if INT { vec![0, 1, 8, 31, 32, 53, 62] } else { vec![-120, -60, -24, -10, -1, 0, 1, 10, 24, 60, 120] } {
        co.push(pow2(k));
        co.push(neg(pow2(k)));
    }
    let nc = co.len() as u64;
    ctx.space(&format!("{}-singles-mixed", NAME), nc.pow(3), &format!("every 3-component value over {:?}", co), |i, loc| {
        let d = digits(i, &[nc; 3]);
        single_ops(pick(&co, &d), false, loc)
    });
    // large and small scalars
    let mut ss: Vec<T> = vec![];
    let top = if INT { 58 } else { 100 };
    for k in 0..=top {
        ss.push(pow2(k));
        if INT {
            ss.push(pow2(k) + 1 as T);
            ss.push(neg(pow2(k)) - 1 as T);
        } else {
            ss.push(pow2(-k));
            ss.push(neg(pow2(-k) * 3 as T));
            ss.push(neg(pow2(k) * 5 as T));
        }
    }
    let r = [9, ss.len() as u64];
    ctx.space(&format!("{}-scalars-scales", NAME), r.iter().product(), "the same shapes scaled and divided by every 2^k and its neighbours", |i, loc| {
        let d = digits(i, &r);
        scalar_ops(sc(d[0], 0), ss[d[1]], loc)
    });
    // quotients of large components
    if INT {
        let big: Vec<T> = [(1i64 << 53) + 1, -(1 << 53) - 3, (1 << 62) + 5, -(1 << 62) - 7, 9_000_000_007, -12, 0].iter().map(|x| *x as T).collect();
        let dv: Vec<T> = [1i64, -1, 2, 3, -7, 1 << 20, (1 << 31) + 1, -(1 << 53) - 1, (1 << 62) + 5].iter().map(|x| *x as T).collect();
        let r = [7, 7, 7, 9];
        ctx.space(&format!("{}-quotients", NAME), r.iter().product(), &format!("every 3-component value over {:?} divided by each of {:?}", big, dv), |i, loc| {
            let d = digits(i, &r);
            let (a, s) = (pick(&big, &d[..3]), dv[d[3]]);
            let case = || format!("a = {:?}, s = {:?}", a, s);
            let want = map(a, |x| x / s);
            want3("vector / s", call(case, || va(v(a) / s))?, want, eq, &case)?;
            want3("normal / s", call(case, || na(n(a) / s))?, want, eq, &case)?;
            want3("point / s", call(case, || pa(p(a) / s))?, want, eq, &case)?;
            loc.execs += 3;
            loc.state(mix(key(&a), key(&[s])));
            loc.tran(key(&a), key(&[s]), key(&want));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C17
#[cfg(feature = "p17")]
/// Sorted coordinate tables: box corners are the odd entries, probe points all
/// of them (so that every relative position to every face occurs).
fn tables() -> Vec<(&'static str, Vec<T>)> {
    if INT {
        let b = (1i64 << 53) + 1;
        let t = |v: Vec<i64>| v.iter().map(|x| *x as T).collect::<Vec<T>>();
        vec![
            ("plain", t(vec![-5, -3, -1, 0, 2, 7, 9])),
            ("adjacent", t(vec![b - 3, b - 2, b - 1, b, b + 1, b + 2, b + 3])),
            ("huge", t(vec![-(1 << 61), -(1 << 60), -1, 0, 1, 1 << 60, 1 << 61])),
        ]
    } else {
        let t = |v: Vec<f64>| v.iter().map(|x| *x as T).collect::<Vec<T>>();
        vec![
            ("plain", t(vec![-5.0, -3.25, -1.0, 0.5, 2.0, 7.0, 9.0])),
            ("adjacent", (0..7).map(|k| 1 as T + (k as T) * EPS as T).collect()),
            ("tiny", t((0..7).map(|k| (k as f64 - 3.0) * 2f64.powi(-100)).collect())),
            ("uneven", t(vec![-2e9, -1e8, -5.0, 0.3, 1.7, 3e4, 1e9])),
            ("huge", t(vec![-1e30, -1e20, -1.0, 0.0, 1.0, 1e20, 1e30])),
            ("infinite", t(vec![f64::NEG_INFINITY, -1.0, 0.0, 1.0, 2.0, 3.0, f64::INFINITY])),
            ("unbounded", t(vec![-2.0, f64::NEG_INFINITY, -1.0, 0.0, 5.0, f64::INFINITY, 9.0])),
        ]
    }
}
#[cfg(feature = "p17")]
fn odd(i: usize) -> usize {
    2 * i + 1
}
#[cfg(feature = "p17")]
fn within(lo3: A3, hi3: A3, q: A3, half_open: bool) -> bool {
    (0..3).all(|k| q[k] >= lo3[k] && if half_open { q[k] < hi3[k] } else { q[k] <= hi3[k] })
}
#[cfg(any(feature = "p17", feature = "p20"))]
fn bx(b: &Bounds3<T>) -> (A3, A3) {
    (pa(b.p_min), pa(b.p_max))
}
/// the six intervals over three grid lines
const IV: [(usize, usize); 6] = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)];

#[cfg(feature = "p17")]
fn same_box(name: &str, got: (A3, A3), want: (A3, A3), cmp: fn(T, T) -> bool, case: &dyn Fn() -> String) -> Res {
    for k in 0..3 {
        if !cmp(got.0[k], want.0[k]) || !cmp(got.1[k], want.1[k]) {
            return Err(Viol::new(format!("{} {}: got {:?}, expected {:?}", NAME, name, got, want), case()));
        }
    }
    Ok(())
}

#[cfg(feature = "p17")]
pub fn c17(ctx: &'static Ctx) {
    for (tag, tab) in tables() {
        let probes: Vec<A3> = {
            let k = tab.len();
            (0..k * k * k).map(|i| [tab[i % k], tab[i / k % k], tab[i / k / k]]).collect()
        };
        // --- construction, membership, corners, growth: all corner pairs
        let r6 = [3u64; 6];
        ctx.space(
            &format!("{}-boxes-{}", NAME, tag),
            3u64.pow(6),
            &format!("every ordered pair of corners on the odd lines of {:?}, every probe point on all lines", tab),
            |i, loc| {
                let d = digits(i, &r6);
                let c = |k: usize| tab[odd(d[k])];
                let (a, b) = ([c(0), c(1), c(2)], [c(3), c(4), c(5)]);
                let case = || format!("box from corners {:?} and {:?}", a, b);
                let case: &dyn Fn() -> String = &case;
                loc.sample(|| case());
                let want = (zip(a, b, lo), zip(a, b, hi));
                let s0 = mix(key(&want.0), key(&want.1));
                loc.state(s0);
                let bb = call(case, || Bounds3::new(p(a), p(b)))?;
                loc.execs += 1;
                for q in &probes {
                    let case2 = || format!("{}, point {:?}", case(), q);
                    let case2: &dyn Fn() -> String = &case2;
                    let got = call(case2, || (bb.inside(&p(*q)), bb.inside_exclusive(&p(*q))))?;
                    let w = (within(want.0, want.1, *q, false), within(want.0, want.1, *q, true));
                    ensure(got == w, || format!("(inside, inside_exclusive): got {:?}, expected {:?}", got, w), case2)?;
                    loc.tran(s0, key(q), got.0 as u64 * 2 + got.1 as u64);
                }
                loc.execs += 2 * probes.len() as u64;
                same_box("new", bx(&bb), want, eq, case)?;
                // corners
                let cs: Vec<A3> = call(case, || (0..8).map(|k| pa(bb.corner(k))).collect())?;
                let by = |set_is_max: bool| {
                    (0..8usize).all(|k| {
                        (0..3).all(|ax| {
                            let max = (k >> ax & 1 == 1) == set_is_max;
                            cs[k][ax] == if max { want.1[ax] } else { want.0[ax] }
                        })
                    })
                };
                ensure(by(true) || by(false), || format!("corners 0..8 are {:?}", cs), case)?;
                loc.execs += 8;
                // growth
                let deltas: Vec<T> = if INT {
                    [0, 1, 2, 1000].iter().map(|x| *x as T).collect()
                } else {
                    [0.0, 0.5, 1.0, 1000.0, 1e-3f64].iter().map(|x| *x as T).collect()
                };
                for dl in deltas {
                    let case2 = || format!("{}, margin {:?}", case(), dl);
                    let e = call(&case2, || bb.expand(dl))?;
                    same_box("expand", bx(&e), (map(want.0, |x| x - dl), map(want.1, |x| x + dl)), about, &case2)?;
                    loc.execs += 1;
                    loc.tran(s0, mix(7, key(&[dl])), mix(key(&bx(&e).0), key(&bx(&e).1)));
                }
                // a one-point box
                let o = call(case, || Bounds3::new_pt(p(a)))?;
                same_box("new_pt", bx(&o), (a, a), eq, case)?;
                loc.execs += 1;
                Ok(())
            },
        );
        // --- union with a point
        let rp = [6, 6, 6, probes.len() as u64];
        ctx.space(
            &format!("{}-union-pt-{}", NAME, tag),
            rp.iter().product(),
            "every box and every probe point",
            |i, loc| {
                let d = digits(i, &rp);
                let l = [tab[odd(IV[d[0]].0)], tab[odd(IV[d[1]].0)], tab[odd(IV[d[2]].0)]];
                let u = [tab[odd(IV[d[0]].1)], tab[odd(IV[d[1]].1)], tab[odd(IV[d[2]].1)]];
                let (l, u) = (zip(l, u, lo), zip(l, u, hi));
                let q = probes[d[3]];
                let case = || format!("box {:?} {:?}, point {:?}", l, u, q);
                let b = call(case, || Bounds3::new(p(l), p(u)).union_pt(&p(q)))?;
                same_box("union_pt", bx(&b), (zip(l, q, lo), zip(u, q, hi)), eq, &case)?;
                loc.execs += 1;
                loc.tran(mix(key(&l), key(&u)), key(&q), mix(key(&bx(&b).0), key(&bx(&b).1)));
                Ok(())
            },
        );
        // --- all pairs of boxes
        let r = [6u64; 6];
        ctx.space(
            &format!("{}-box-pairs-{}", NAME, tag),
            6u64.pow(6),
            "every ordered pair of boxes on the odd lines; intersection judged on every probe point",
            |i, loc| {
                let d = digits(i, &r);
                let b = |o: usize| {
                    let l = [tab[odd(IV[d[o]].0)], tab[odd(IV[d[o + 1]].0)], tab[odd(IV[d[o + 2]].0)]];
                    let u = [tab[odd(IV[d[o]].1)], tab[odd(IV[d[o + 1]].1)], tab[odd(IV[d[o + 2]].1)]];
                    (zip(l, u, lo), zip(l, u, hi))
                };
                let (b1, b2) = (b(0), b(3));
                let case = || format!("boxes {:?} and {:?}", b1, b2);
                let case: &dyn Fn() -> String = &case;
                let x = Bounds3::new(p(b1.0), p(b1.1));
                let y = Bounds3::new(p(b2.0), p(b2.1));
                let s0 = mix(mix(key(&b1.0), key(&b1.1)), mix(key(&b2.0), key(&b2.1)));
                loc.state(s0);
                let u = call(case, || x.union(&y))?;
                same_box("union", bx(&u), (zip(b1.0, b2.0, lo), zip(b1.1, b2.1, hi)), eq, case)?;
                let (il, iu) = (zip(b1.0, b2.0, hi), zip(b1.1, b2.1, lo));
                let nonempty = (0..3).all(|k| il[k] <= iu[k]);
                let o = call(case, || x.overlaps(&y))?;
                ensure(o == nonempty, || format!("overlaps: got {}, expected {}", o, nonempty), case)?;
                let z = call(case, || x.intersect(&y))?;
                if nonempty {
                    same_box("intersect", bx(&z), (il, iu), eq, case)?;
                }
                for q in &probes {
                    let got = z.inside(&p(*q));
                    let want = within(b1.0, b1.1, *q, false) && within(b2.0, b2.1, *q, false);
                    ensure(
                        got == want,
                        || format!("intersect = {:?} contains {:?}: {}, but it is in both boxes: {}", bx(&z), q, got, want),
                        case,
                    )?;
                }
                loc.execs += 3 + probes.len() as u64;
                loc.tran(s0, 1, mix(key(&bx(&u).0), key(&bx(&u).1)));
                loc.tran(s0, 2, o as u64);
                loc.tran(s0, 3, mix(key(&bx(&z).0), key(&bx(&z).1)));
                Ok(())
            },
        );
    }
    // --- growing a box point by point: every sequence
    let len = 4;
    let tab = tables()[0].1.clone();
    let pts: Vec<A3> = (0..27).map(|i| [tab[odd(i % 3)], tab[odd(i / 3 % 3)], tab[odd(i / 9)]]).collect();
    let rr = vec![27u64; len + 1];
    ctx.space(
        &format!("{}-accumulate", NAME),
        rr.iter().product(),
        &format!("every sequence of {} points accumulated with union_pt, and with union of one-point boxes", len + 1),
        |i, loc| {
            let d = digits(i, &rr);
            let case = || format!("points {:?}", d.iter().map(|k| pts[*k]).collect::<Vec<_>>());
            let mut w = (pts[d[0]], pts[d[0]]);
            let mut b = Bounds3::new_pt(p(pts[d[0]]));
            let mut c = Bounds3::new_pt(p(pts[d[0]]));
            for k in &d[1..] {
                let q = pts[*k];
                let from = mix(key(&w.0), key(&w.1));
                w = (zip(w.0, q, lo), zip(w.1, q, hi));
                b = call(case, || b.union_pt(&p(q)))?;
                c = call(case, || Bounds3::new_pt(p(q)).union(&c))?;
                let to = mix(key(&w.0), key(&w.1));
                loc.state(to);
                loc.tran(from, *k as u64, to);
                loc.execs += 2;
            }
            same_box("accumulated union_pt", bx(&b), w, eq, &case)?;
            same_box("accumulated union", bx(&c), w, eq, &case)
        },
    );
    // --- four grid lines
    {
        let t4: Vec<T> = (0..9).map(|x| (x * 2 - 9) as T).collect();
        let iv: Vec<(usize, usize)> = (0..16).map(|i| (i / 4, i % 4)).filter(|(a, b)| a <= b).collect();
        let pr: Vec<A3> = (0..9 * 9 * 9).map(|i| [t4[i % 9], t4[i / 9 % 9], t4[i / 81]]).collect();
        let r = [10u64; 6];
        ctx.space(
            &format!("{}-box-pairs-4", NAME),
            1_000_000,
            "every ordered pair of boxes over four grid lines per axis, 729 probe points",
            |i, loc| {
                let d = digits(i, &r);
                let b = |o: usize| {
                    (
                        [t4[odd(iv[d[o]].0)], t4[odd(iv[d[o + 1]].0)], t4[odd(iv[d[o + 2]].0)]],
                        [t4[odd(iv[d[o]].1)], t4[odd(iv[d[o + 1]].1)], t4[odd(iv[d[o + 2]].1)]],
                    )
                };
                let (b1, b2) = (b(0), b(3));
                let case = || format!("boxes {:?} and {:?}", b1, b2);
                let case: &dyn Fn() -> String = &case;
                let x = Bounds3::new(p(b1.1), p(b1.0));
                let y = Bounds3::new(p(b2.0), p(b2.1));
                let (u, o, z) = call(case, || (x.union(&y), x.overlaps(&y), x.intersect(&y)))?;
                same_box("union", bx(&u), (zip(b1.0, b2.0, lo), zip(b1.1, b2.1, hi)), eq, case)?;
                let mut any = false;
                for q in &pr {
                    let (i1, i2) = (x.inside(&p(*q)), y.inside(&p(*q)));
                    let w = (within(b1.0, b1.1, *q, false), within(b2.0, b2.1, *q, false));
                    ensure((i1, i2) == w, || format!("inside {:?}: got {:?}", q, (i1, i2)), case)?;
                    any |= i1 && i2;
                    ensure(z.inside(&p(*q)) == (i1 && i2), || format!("intersect = {:?} at {:?}", bx(&z), q), case)?;
                }
                // faces are grid lines, so a common point exists iff a common probe does
                ensure(o == any, || format!("overlaps: got {}, expected {}", o, any), case)?;
                loc.execs += 3 + 3 * pr.len() as u64;
                loc.state(mix(key(&bx(&z).0), key(&bx(&z).1)));
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C20
#[cfg(feature = "p20")]
pub fn c20(ctx: &'static Ctx) {
    let ext: Vec<T> = if INT {
        [0, 1, 2, 3, 7, (1 << 20) + 1].iter().map(|x| *x as T).collect()
    } else {
        [0.0, 0.25, 1.0, 2.0, 3.0, 7.5, 100.0f64].iter().map(|x| *x as T).collect()
    };
    let org: Vec<T> = [-5, 0, 3].iter().map(|x| *x as T).collect();
    let e = ext.len() as u64;
    let r = [e, e, e, 3, 3, 3];
    ctx.space(
        &format!("{}-measures", NAME),
        r.iter().product(),
        &format!("every extent triple over {:?} at every origin over {:?}", ext, org),
        |i, loc| {
            let d = digits(i, &r);
            measure([org[d[3]], org[d[4]], org[d[5]]], [ext[d[0]], ext[d[1]], ext[d[2]]], loc)
        },
    );
    // extents of every magnitude
    let ks: Vec<i32> = if INT { vec![0, 1, 4, 9, 12, 16, 19, 20] } else { (-40..=40).step_by(5).collect() };
    let mut ext: Vec<T> = vec![0 as T];
    ext.extend(ks.iter().map(|k| pow2(*k) + if INT { 1 as T } else { 0 as T }));
    let e = ext.len() as u64;
    let r = [e, e, e, 3];
    ctx.space(
        &format!("{}-measures-scales", NAME),
        r.iter().product(),
        &format!("every extent triple over {:?}, from the origin, to it, and around it", ext),
        |i, loc| {
            let d = digits(i, &r);
            let x = [ext[d[0]], ext[d[1]], ext[d[2]]];
            let two = 2 as T;
            // (the last is not the middle for odd integers, which is all the same)
            let l = map(x, |a| [0 as T, neg(a), neg(a / two)][d[3]]);
            measure(l, x, loc)
        },
    );
}
#[cfg(feature = "p20")]
fn measure(l: A3, x: A3, loc: &mut Local) -> Res {
    let u = zip(l, x, |a, b| a + b);
    let case = || format!("box {:?} .. {:?}", l, u);
    let case: &dyn Fn() -> String = &case;
    loc.sample(|| case());
    let b = Bounds3::new(p(l), p(u));
    let s0 = mix(key(&l), key(&u));
    loc.state(s0);
    let dg = call(case, || va(b.diagonal()))?;
    want3("diagonal", dg, x, eq, case)?;
    let sa = call(case, || b.surface_area())?;
    let two = 2 as T;
    want1("surface_area", sa, two * x[0] * x[1] + two * x[1] * x[2] + two * x[0] * x[2], about, case)?;
    let vol = call(case, || b.volume())?;
    want1("volume", vol, x[0] * x[1] * x[2], about, case)?;
    let m = call(case, || b.maximum_extent())?;
    let mx = hi(hi(x[0], x[1]), x[2]);
    ensure(m < 3 && x[m] == mx, || format!("maximum_extent: got {} for extents {:?}", m, x), case)?;
    loc.execs += 4;
    loc.tran(s0, 1, key(&dg));
    loc.tran(s0, 2, key(&[sa]));
    loc.tran(s0, 3, key(&[vol]));
    loc.tran(s0, 4, m as u64);
    // relative offsets of the corners and of points outside
    for k in 0..125usize {
        let t = [k % 5, k / 5 % 5, k / 25];
        // -1, 0, 1, 2 times the extent, and one beyond the origin
        let q = [0, 1, 2].map(|a| match t[a] {
            0 => l[a] - x[a],
            1 => l[a],
            2 => u[a],
            3 => u[a] + x[a],
            _ => l[a] + 1 as T,
        });
        let got = call(case, || va(b.offset(&p(q))))?;
        let want = [0, 1, 2].map(|a| {
            let df = q[a] - l[a];
            if x[a] > 0 as T {
                df / x[a]
            } else {
                df
            }
        });
        let case2 = || format!("{}, point {:?}", case(), q);
        want3("offset", got, want, about, &case2)?;
        loc.execs += 1;
        loc.tran(s0, mix(9, key(&q)), key(&got));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
type MT = [[T; 4]; 4];
#[cfg(feature = "p14")]
fn mt(m: &M) -> Matrix4<T> {
    let mut o: MT = [[0 as T; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = m[r][c] as T;
        }
    }
    Matrix4::new(o)
}
#[cfg(feature = "p14")]
fn same_m(name: &str, got: &Matrix4<T>, want: &M, case: &dyn Fn() -> String) -> Res {
    for r in 0..4 {
        for c in 0..4 {
            if got.mat[r][c] != want[r][c] as T {
                return Err(Viol::new(
                    format!("{} {}: entry ({}, {}) of {:?} should be {}", NAME, name, r, c, got.mat, want[r][c]),
                    case(),
                ));
            }
        }
    }
    Ok(())
}
#[cfg(feature = "p14")]
fn msum(a: &M, b: &M) -> M {
    let mut o = [[0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = a[r][c] + b[r][c];
        }
    }
    o
}
#[cfg(feature = "p14")]
fn elem(i: usize, s: i128) -> M {
    let mut o = [[0; 4]; 4];
    o[i / 4][i % 4] = s;
    o
}
#[cfg(feature = "p14")]
fn pattern(bits: u64, on: i128, off: i128) -> M {
    let mut o = [[0; 4]; 4];
    for i in 0..16 {
        o[i / 4][i % 4] = if bits >> i & 1 == 1 { on } else { off };
    }
    o
}
#[cfg(feature = "p14")]
fn dense(k: i128) -> M {
    let mut o = [[0; 4]; 4];
    for i in 0..16i128 {
        o[(i / 4) as usize][(i % 4) as usize] = (i * i * 7 + i * 13 + k * (i + 3)) % 61 - 30;
    }
    o
}
#[cfg(feature = "p14")]
fn unary(a: &M, loc: &mut Local) -> Res {
    let case = || format!("A = {:?}", a);
    let case: &dyn Fn() -> String = &case;
    let x = mt(a);
    let t = call(case, || x.transpose())?;
    same_m("transpose", &t, &transpose(a), case)?;
    for r in 0..4 {
        let row = call(case, || x[r])?;
        ensure(row == x.mat[r] && (0..4).all(|c| row[c] == a[r][c] as T), || format!("row {}: got {:?}", r, row), case)?;
    }
    loc.execs += 5;
    loc.state(hm(a));
    loc.tran(hm(a), 1, hm(&transpose(a)));
    Ok(())
}
#[cfg(feature = "p14")]
fn binary(a: &M, b: &M, loc: &mut Local) -> Res {
    let case = || format!("A = {:?}, B = {:?}", a, b);
    let case: &dyn Fn() -> String = &case;
    let (x, y) = (mt(a), mt(b));
    let s = call(case, || x + y)?;
    same_m("sum", &s, &msum(a, b), case)?;
    let m = call(case, || x * y)?;
    let w = mul(a, b);
    same_m("product", &m, &w, case)?;
    loc.execs += 2;
    loc.state(hm(a));
    loc.state(hm(b));
    loc.tran(mix(hm(a), hm(b)), 2, hm(&msum(a, b)));
    loc.tran(mix(hm(a), hm(b)), 3, hm(&w));
    Ok(())
}

#[cfg(feature = "p14")]
pub fn c14(ctx: &'static Ctx) {
    let sc: Vec<i128> = vec![-3, 1, 2, 1 << 10];
    let r = [16, 16, 4, 4];
    ctx.space(
        &format!("{}-basis", NAME),
        r.iter().product(),
        &format!("every pair of elementary matrices with entries from {:?}: sum and product", sc),
        |i, loc| {
            let d = digits(i, &r);
            let (a, b) = (elem(d[0], sc[d[2]]), elem(d[1], sc[d[3]]));
            loc.sample(|| format!("{:?} {:?}", a, b));
            unary(&a, loc)?;
            binary(&a, &b, loc)
        },
    );
    ctx.space(
        &format!("{}-patterns", NAME),
        65536,
        "every 0/1 matrix: transpose, rows, sum and product with two dense matrices on either side, and with itself",
        |i, loc| {
            let a = pattern(i, 1, 0);
            unary(&a, loc)?;
            binary(&a, &a, loc)?;
            for k in [1, 5] {
                binary(&a, &dense(k), loc)?;
                binary(&dense(k), &a, loc)?;
            }
            Ok(())
        },
    );
    // wide entries at every position
    let wv: Vec<i128> =
        if INT { vec![(1 << 53) + 1, -(1 << 53) - 3, (1 << 62) - 1] } else { vec![(1 << 20) + 1, -(1 << 20) - 3] };
    let nw = wv.len() as u64;
    ctx.space(
        &format!("{}-wide", NAME),
        16 * 16 * nw * 24,
        "wide entries at every two positions: sum, transpose, rows, product with every permutation matrix",
        |i, loc| {
            let d = digits(i, &[16, 16, nw, 24]);
            let mut a = elem(d[0], wv[d[2]]);
            a[d[1] / 4][d[1] % 4] = wv[(d[2] + 1) % wv.len()];
            let pm = perms4()[d[3]];
            let mut b = [[0; 4]; 4];
            for k in 0..4 {
                b[k][pm[k]] = 1;
            }
            unary(&a, loc)?;
            binary(&a, &b, loc)?;
            binary(&b, &a, loc)
        },
    );
    // algebraic laws and long products: words over generators
    let mut gens: Vec<M> = vec![ident()];
    let mut sh = ident();
    sh[0][3] = 2;
    gens.push(sh);
    let mut sh = ident();
    sh[2][1] = -1;
    gens.push(sh);
    let mut cy = [[0; 4]; 4];
    for k in 0..4 {
        cy[k][(k + 1) % 4] = 1;
    }
    gens.push(cy);
    let mut dg = [[0; 4]; 4];
    for k in 0..4 {
        dg[k][k] = [2, -1, 1, 3][k];
    }
    gens.push(dg);
    gens.push(pattern(0b1010_0110_0011_1001, 1, 0));
    gens.push(pattern(0b0000_0000_1111_0000, -1, 0));
    let small_dense = {
        let mut o = [[0; 4]; 4];
        for i in 0..16usize {
            o[i / 4][i % 4] = (i as i128 * 5) % 7 - 3;
        }
        o
    };
    gens.push(small_dense);
    let k = gens.len() as u64;
    let len = if ctx.thorough { 7 } else { 6 };
    ctx.space(
        &format!("{}-words", NAME),
        k.pow(len),
        &format!("every product of {} factors from {} generators, associated to the left and to the right, and reversed under transposition", len, k),
        |i, loc| {
            let d = digits(i, &vec![k; len as usize]);
            let case = || format!("product of generators {:?}", d);
            let case: &dyn Fn() -> String = &case;
            let mut w = gens[d[0]];
            for g in &d[1..] {
                let nx = mul(&w, &gens[*g]);
                loc.tran(hm(&w), *g as u64, hm(&nx));
                w = nx;
                loc.state(hm(&w));
            }
            let (l, r, t) = call(case, || {
                let mut l = mt(&gens[d[0]]);
                for g in &d[1..] {
                    l = l * mt(&gens[*g]);
                }
                let mut r = mt(&gens[*d.last().unwrap()]);
                for g in d[..d.len() - 1].iter().rev() {
                    r = mt(&gens[*g]) * r;
                }
                let mut t = mt(&gens[*d.last().unwrap()]).transpose();
                for g in d[..d.len() - 1].iter().rev() {
                    t = t * mt(&gens[*g]).transpose();
                }
                (l, r, t.transpose())
            })?;
            loc.execs += 3 * d.len() as u64;
            same_m("left-associated product", &l, &w, case)?;
            same_m("right-associated product", &r, &w, case)?;
            same_m("product reversed under transposition", &t, &w, case)
        },
    );
    ctx.space(
        &format!("{}-laws", NAME),
        k.pow(3),
        "distributivity, units and commutativity of the sum for every triple of generators",
        |i, loc| {
            let d = digits(i, &[k; 3]);
            let (a, b, c) = (gens[d[0]], gens[d[1]], gens[d[2]]);
            let case = || format!("generators {:?}", d);
            let (x, y, z) = (mt(&a), mt(&b), mt(&c));
            let ok = call(&case, || {
                (
                    (x * (y + z)) == (x * y) + (x * z),
                    ((x + y) * z) == (x * z) + (y * z),
                    x + y == y + x,
                    x * mt(&ident()) == x && mt(&ident()) * x == x,
                    (x + y).transpose() == x.transpose() + y.transpose(),
                )
            })?;
            loc.execs += 15;
            ensure(
                ok == (true, true, true, true, true),
                || format!("laws (left and right distributivity, commutative sum, unit, transposed sum): {:?}", ok),
                &case,
            )
        },
    );
    // entries of every magnitude, one in each factor, on top of three base matrices
    let ks: Vec<i32> = if INT { vec![0, 1, 5, 10, 24, 30, 31, 32, 45, 53, 60] } else { (-60..=60).step_by(if ctx.thorough { 3 } else { 6 }).collect() };
    let nk = ks.len() as u64;
    let r = [16, 16, nk, nk, 3, 3];
    ctx.space(
        &format!("{}-scales", NAME),
        r.iter().product(),
        &format!("an entry 2^k, k in {:?}, at every position of either factor, the rest zero, the identity, or all ones", ks),
        |i, loc| {
            let d = digits(i, &r);
            let (ka, kb) = (ks[d[2]], ks[d[3]]);
            if INT && ka + kb > 61 {
                return Ok(());
            }
            let mk = |pos: usize, k: i32, base: usize| {
                let mut o: MT = [[0 as T; 4]; 4];
                for q in 0..16 {
                    o[q / 4][q % 4] = match base {
                        0 => 0 as T,
                        1 => (q / 4 == q % 4) as u8 as T,
                        _ => 1 as T,
                    };
                }
                o[pos / 4][pos % 4] = pow2(k);
                o
            };
            let (a, b) = (mk(d[0], ka, d[4]), mk(d[1], kb, d[5]));
            let case = || format!("A = {:?}, B = {:?}", a, b);
            let (sum, prod) = call(case, || (Matrix4::new(a) + Matrix4::new(b), Matrix4::new(a) * Matrix4::new(b)))?;
            loc.execs += 2;
            for q in 0..16 {
                let (rr, c) = (q / 4, q % 4);
                let ws = a[rr][c] + b[rr][c];
                if sum.mat[rr][c] != ws {
                    return Err(Viol::new(format!("{} sum: entry ({}, {}) of {:?} should be {:?}", NAME, rr, c, sum.mat, ws), case()));
                }
                let (mut w, mut exact) = (0.0, 0i128);
                for k in 0..4 {
                    w += f(a[rr][k]) * f(b[k][c]);
                    if INT {
                        exact += a[rr][k] as i128 * b[k][c] as i128;
                    }
                }
                let g = prod.mat[rr][c];
                // no entry is negative, so the sum is its own magnitude
                if if INT { g as i128 != exact } else { !close(f(g), w, 8.0) } {
                    return Err(Viol::new(format!("{} product: entry ({}, {}) of {:?} should be {:e}", NAME, rr, c, prod.mat, w), case()));
                }
            }
            loc.state(mix(key(&a.concat()), key(&b.concat())));
            loc.tran(key(&a.concat()), key(&b.concat()), key(&prod.mat.concat()));
            Ok(())
        },
    );
    {
        // every pair of 0/1 matrices supported on one row and one column pair each:
        // all 2^16 x 16 elementary on both sides
        ctx.space(
            &format!("{}-pattern-elementary", NAME),
            65536 * 16,
            "every 0/1 matrix times every elementary matrix, both ways",
            |i, loc| {
                let a = pattern(i / 16, 2, -1);
                let b = elem((i % 16) as usize, 3);
                binary(&a, &b, loc)?;
                binary(&b, &a, loc)
            },
        );
    }
}
