//! Exact reference arithmetic.
use crate::Float;
use fw::{mix, Viol};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// unit roundoff scale of the configured float type
pub const EPS: f64 = Float::EPSILON as f64;

/// Run a call of the code under test; a panic becomes a violation.
pub fn call<R>(case: impl Fn() -> String, f: impl FnOnce() -> R) -> Result<R, Viol> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        Viol::new(format!("the call panicked: {}", m), case())
    })
}

/// Does the call panic?
pub fn refuses<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0f64).max(a.abs()).max(b.abs())
}
/// relative comparison, no absolute floor
pub fn close(a: f64, b: f64, ulps: f64) -> bool {
    a == b || (a - b).abs() <= ulps * EPS * a.abs().max(b.abs())
}

pub type M = [[i128; 4]; 4];

pub fn mul(a: &M, b: &M) -> M {
    let mut o = [[0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            let mut s = 0;
            for k in 0..4 {
                s += a[r][k] * b[k][c];
            }
            o[r][c] = s;
        }
    }
    o
}
pub fn transpose(a: &M) -> M {
    let mut o = [[0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[c][r] = a[r][c];
        }
    }
    o
}
pub fn ident() -> M {
    let mut o = [[0; 4]; 4];
    for i in 0..4 {
        o[i][i] = 1;
    }
    o
}
fn det3(m: &[[i128; 3]; 3]) -> i128 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
fn minor(a: &M, r: usize, c: usize) -> i128 {
    let mut m = [[0; 3]; 3];
    let mut i = 0;
    for y in 0..4 {
        if y == r {
            continue;
        }
        let mut j = 0;
        for x in 0..4 {
            if x == c {
                continue;
            }
            m[i][j] = a[y][x];
            j += 1;
        }
        i += 1;
    }
    det3(&m)
}
/// (adjugate, determinant): a * adj = det * I, exactly
pub fn adjugate(a: &M) -> (M, i128) {
    let mut adj = [[0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            let m = minor(a, r, c);
            adj[c][r] = if (r + c) % 2 == 0 { m } else { -m };
        }
    }
    let det = (0..4).map(|k| a[0][k] * adj[k][0]).sum();
    (adj, det)
}

pub fn h(v: &[f64]) -> u64 {
    let mut x = 0x51;
    for f in v {
        // -0.0 and 0.0 are the same value
        x = mix(x, (*f + 0.0).to_bits());
    }
    x
}
pub fn hm(m: &M) -> u64 {
    let mut x = 0x4d;
    for r in m {
        for c in r {
            x = mix(x, *c as u64);
        }
    }
    x
}

/// All permutations of 0..4.
pub fn perms4() -> Vec<[usize; 4]> {
    let mut v = vec![];
    for i in 0..256usize {
        let p = [i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6 & 3];
        let mut s = [false; 4];
        for k in p {
            s[k] = true;
        }
        if s == [true; 4] {
            v.push(p);
        }
    }
    v
}
