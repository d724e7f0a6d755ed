//! Contract stand-ins for the LAPACK routines the library reaches through `ndarray-linalg`: the
//! foreign Fortran code is replaced by its contract (exact inverse / exact solution, or a
//! computational failure when the matrix is singular or the fault schedule says so).  Buffer
//! conventions (layout, triangle actually read or written) follow `lax` 0.18 and are compared
//! with the real routines by `selftest`.
use crate::scalar::Core;
use lax::error::{Error, Result};
use lax::layout::MatrixLayout;
use lax::*;

fn dim(l: MatrixLayout) -> usize {
    l.size().0 as usize
}
fn fail() -> Error {
    Error::LapackComputationalFailure { return_code: 1 }
}
fn minor<T: Core>(m: &[T], n: usize, r: usize, c: usize) -> Vec<T> {
    let mut v = Vec::with_capacity((n - 1) * (n - 1));
    for i in 0..n {
        for j in 0..n {
            if i != r && j != c {
                v.push(m[i * n + j]);
            }
        }
    }
    v
}
pub fn det<T: Core>(m: &[T], n: usize) -> T {
    match n {
        0 => T::c(1.0),
        1 => m[0],
        2 => m[0].o_mul(m[3]).o_sub(m[1].o_mul(m[2])),
        _ => {
            let mut s = T::c(0.0);
            for j in 0..n {
                let t = m[j].o_mul(det(&minor(m, n, 0, j), n - 1));
                s = if j % 2 == 0 { s.o_add(t) } else { s.o_sub(t) };
            }
            s
        }
    }
}
/// exact inverse (adjugate over determinant), row-major in and out
pub fn inverse<T: Core>(m: &[T], n: usize) -> Vec<T> {
    let id: Vec<T> = (0..n * n).map(|t| T::c((t / n == t % n) as u8 as f64)).collect();
    if let Some(r) = T::eliminate(m, n, &id, n) {
        return r;
    }
    let d = det(m, n);
    let mut r = m.to_vec();
    for i in 0..n {
        for j in 0..n {
            let c = if n == 1 { T::c(1.0) } else { det(&minor(m, n, j, i), n - 1) };
            let c = if (i + j) % 2 == 0 { c } else { c.o_neg() };
            r[i * n + j] = c.o_div(d);
        }
    }
    r
}
fn matvec<T: Core>(m: &[T], n: usize, b: &[T]) -> Vec<T> {
    if let Some(r) = T::eliminate(m, n, b, 1) {
        return r.into_iter().map(|x| x.alias()).collect();
    }
    // adj(m) b / det
    let d = det(m, n);
    (0..n)
        .map(|i| {
            let mut s = T::c(0.0);
            for j in 0..n {
                let c = if n == 1 { T::c(1.0) } else { det(&minor(m, n, j, i), n - 1) };
                let c = if (i + j) % 2 == 0 { c } else { c.o_neg() };
                s = s.o_add(c.o_mul(b[j]));
            }
            s.o_div(d).alias()
        })
        .collect()
}
fn check<T: Core>(m: &[T], n: usize) -> Result<()> {
    if T::solver_fault() || (n > 0 && T::det_is_zero(m, n)) { Err(fail()) } else { Ok(()) }
}
/// the symmetric matrix LAPACK sees: column-major buffer, triangle `u`
fn symm<T: Core>(u: UPLO, a: &[T], n: usize) -> Vec<T> {
    let mut m = a.to_vec();
    for i in 0..n {
        for j in 0..n {
            let (r, c) = (i.min(j), i.max(j)); // upper entry r<=c
            m[i * n + j] = match u {
                UPLO::Upper => a[c * n + r],
                UPLO::Lower => a[r * n + c],
            };
        }
    }
    m
}
fn row_major<T: Core>(l: MatrixLayout, a: &[T]) -> Vec<T> {
    let n = dim(l);
    match l {
        MatrixLayout::C { .. } => a.to_vec(),
        MatrixLayout::F { .. } => {
            let mut m = a.to_vec();
            for i in 0..n {
                for j in 0..n {
                    m[i * n + j] = a[j * n + i];
                }
            }
            m
        }
    }
}
fn square(l: MatrixLayout, a: usize) -> usize {
    let (r, c) = l.size();
    assert!(r == c && a == (r * c) as usize, "non-square matrix passed to the solver");
    r as usize
}
pub fn lu<T: Core>(l: MatrixLayout, a: &mut [T]) -> Result<Pivot> {
    let n = square(l, a.len());
    check(&row_major(l, a), n)?;
    Ok((1..=n as i32).collect())
}
pub fn inv<T: Core>(l: MatrixLayout, a: &mut [T]) -> Result<()> {
    let n = square(l, a.len());
    // inverse of the transpose is the transpose of the inverse, so the layout is irrelevant
    let r = inverse(a, n);
    a.copy_from_slice(&r);
    Ok(())
}
pub fn solve<T: Core>(l: MatrixLayout, t: Transpose, a: &[T], b: &mut [T]) -> Result<()> {
    let n = square(l, a.len());
    let mut m = row_major(l, a);
    if t != Transpose::No {
        m = row_major(MatrixLayout::F { col: n as i32, lda: n as i32 }, &m);
    }
    let r = matvec(&m, n, b);
    b.copy_from_slice(&r);
    Ok(())
}
pub fn bk<T: Core>(l: MatrixLayout, u: UPLO, a: &mut [T]) -> Result<Pivot> {
    let n = square(l, a.len());
    check(&symm(u, a, n), n)?;
    Ok((1..=n as i32).collect())
}
pub fn invh<T: Core>(l: MatrixLayout, u: UPLO, a: &mut [T]) -> Result<()> {
    let n = square(l, a.len());
    let r = inverse(&symm(u, a, n), n);
    for i in 0..n {
        for j in i..n {
            // only the stored triangle is written
            match u {
                UPLO::Upper => a[j * n + i] = r[i * n + j],
                UPLO::Lower => a[i * n + j] = r[i * n + j],
            }
        }
    }
    Ok(())
}
pub fn solveh<T: Core>(l: MatrixLayout, u: UPLO, a: &[T], b: &mut [T]) -> Result<()> {
    let n = square(l, a.len());
    if n == 0 {
        // as the real routine does
        return Err(lax::error::Error::LapackInvalidValue { return_code: -8 });
    }
    let r = matvec(&symm(u, a, n), n, b);
    b.copy_from_slice(&r);
    Ok(())
}
/// the buffer is left alone (the "factor" is the matrix itself); only solves may use it
pub fn cholesky<T: Core>(l: MatrixLayout, _u: UPLO, a: &mut [T]) -> Result<()> {
    let n = square(l, a.len());
    check(&row_major(l, a), n)
}
pub fn solve_cholesky<T: Core>(l: MatrixLayout, u: UPLO, a: &[T], b: &mut [T]) -> Result<()> {
    let n = square(l, a.len());
    let m = row_major(l, a);
    let mut s = m.clone();
    for i in 0..n {
        for j in 0..n {
            let (r, c) = (i.min(j), i.max(j));
            s[i * n + j] = match u {
                UPLO::Upper => m[r * n + c],
                UPLO::Lower => m[c * n + r],
            };
        }
    }
    let r = matvec(&s, n, b);
    b.copy_from_slice(&r);
    Ok(())
}
