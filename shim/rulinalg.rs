//! Stand-in for `rulinalg` (git rev 1ed8b937), which cannot be fetched in this sandbox.
//! It re-creates the part of rulinalg's public API that rusty-machine (and its tests) use, plus
//! neighbouring operations.  The verifier uses only its *signatures* (behaviour comes from the
//! assumed contracts listed in DESIGN.md / trusted_base); the replay search runs its bodies.
extern crate num;

pub mod error {
    use std::{error, fmt};
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ErrorKind { InvalidArg, InvalidState, DecompFailure, DivByZero, AlgebraFailure, ScalarConversionFailure }
    #[derive(Debug)]
    pub struct Error { kind: ErrorKind, error: Box<error::Error + Send + Sync> }
    impl Error {
        pub fn new<E>(kind: ErrorKind, e: E) -> Error where E: Into<Box<error::Error + Send + Sync>> { Error { kind: kind, error: e.into() } }
        pub fn kind(&self) -> &ErrorKind { &self.kind }
    }
    impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.error.fmt(f) } }
    impl error::Error for Error { #[allow(deprecated)] fn description(&self) -> &str { self.error.description() } }
}

pub mod utils {
    use num::Zero;
    use std::ops::{Add, Mul};
    use std::cmp;
    /// both slices are truncated to the shorter one, as in rulinalg
    pub fn dot<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>>(u: &[T], v: &[T]) -> T {
        let n = cmp::min(u.len(), v.len());
        let mut s = T::zero();
        for i in 0..n { s = s + u[i] * v[i]; }
        s
    }
    pub fn ele_mul<T: Copy + Mul<T, Output = T>>(a: &[T], b: &[T]) -> Vec<T> { vec_bin_op(a, b, |x, y| x * y) }
    pub fn vec_bin_op<F, T>(u: &[T], v: &[T], mut f: F) -> Vec<T> where F: FnMut(T, T) -> T, T: Copy {
        let n = cmp::min(u.len(), v.len());
        (0..n).map(|i| f(u[i], v[i])).collect()
    }
    pub fn in_place_vec_bin_op<F, T>(u: &mut [T], v: &[T], mut f: F) where F: FnMut(&mut T, &T), T: Copy {
        let n = cmp::min(u.len(), v.len());
        for i in 0..n { f(&mut u[i], &v[i]); }
    }
    pub fn vec_sum<T: Copy + Zero + Add<T, Output = T>>(u: &[T]) -> T { u.iter().fold(T::zero(), |a, &b| a + b) }
    pub fn unrolled_sum<T: Copy + Zero + Add<T, Output = T>>(u: &[T]) -> T { vec_sum(u) }
    pub fn argmax<T: Copy + PartialOrd>(u: &[T]) -> (usize, T) {
        assert!(u.len() != 0);
        let mut m = 0; for i in 0..u.len() { if u[i] > u[m] { m = i; } } (m, u[m])
    }
    pub fn argmin<T: Copy + PartialOrd>(u: &[T]) -> (usize, T) {
        assert!(u.len() != 0);
        let mut m = 0; for i in 0..u.len() { if u[i] < u[m] { m = i; } } (m, u[m])
    }
    pub fn find<T: PartialEq>(p: &[T], x: T) -> usize { p.iter().position(|y| *y == x).expect("Value not found.") }
}

pub mod norm {
    use matrix::BaseMatrix;
    use vector::Vector;
    use num::Float;
    pub trait VectorNorm<T> { fn norm(&self, v: &Vector<T>) -> T; }
    pub trait VectorMetric<T> { fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T; }
    pub trait MatrixNorm<T, M: BaseMatrix<T>> { fn norm(&self, m: &M) -> T; }
    pub trait MatrixMetric<'a, 'b, T, M1: 'a + BaseMatrix<T>, M2: 'b + BaseMatrix<T>> { fn metric(&self, m1: &'a M1, m2: &'b M2) -> T; }
    #[derive(Debug)] pub struct Euclidean;
    #[derive(Debug)] pub enum Lp<T: Float> { Infinity, Integer(i32), Float(T) }
    impl<T: Float> VectorNorm<T> for Euclidean { fn norm(&self, v: &Vector<T>) -> T { ::utils::dot(v.data(), v.data()).sqrt() } }
    impl<T: Float> VectorMetric<T> for Euclidean {
        fn metric(&self, a: &Vector<T>, b: &Vector<T>) -> T {
            assert!(a.size() == b.size(), "Vectors must have the same length.");
            let mut s = T::zero(); for i in 0..a.size() { let d = a[i] - b[i]; s = s + d * d; } s.sqrt() }
    }
    impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Euclidean {
        fn norm(&self, m: &M) -> T { let mut s = T::zero(); for i in 0..m.rows() { for j in 0..m.cols() { let d = m.get_chk(i, j); s = s + d * d; } } s.sqrt() }
    }
    impl<'a, 'b, T: Float, M1: 'a + BaseMatrix<T>, M2: 'b + BaseMatrix<T>> MatrixMetric<'a, 'b, T, M1, M2> for Euclidean {
        fn metric(&self, a: &'a M1, b: &'b M2) -> T {
            assert!(a.rows() == b.rows() && a.cols() == b.cols());
            let mut s = T::zero(); for i in 0..a.rows() { for j in 0..a.cols() { let d = a.get_chk(i, j) - b.get_chk(i, j); s = s + d * d; } } s.sqrt() }
    }
    fn lp<T: Float, I: Iterator<Item = T>>(l: &Lp<T>, it: I) -> T {
        match *l {
            Lp::Infinity => it.fold(T::zero(), |m, x| { let a = x.abs(); if a > m { a } else { m } }),
            Lp::Integer(p) => { assert!(p >= 1); it.fold(T::zero(), |s, x| s + x.abs().powi(p)).powf(T::from(p).expect("Could not cast").recip()) }
            Lp::Float(p) => { assert!(p >= T::one()); it.fold(T::zero(), |s, x| s + x.abs().powf(p)).powf(p.recip()) }
        }
    }
    impl<T: Float> VectorNorm<T> for Lp<T> { fn norm(&self, v: &Vector<T>) -> T { lp(self, v.data().iter().cloned()) } }
    impl<T: Float> VectorMetric<T> for Lp<T> { fn metric(&self, a: &Vector<T>, b: &Vector<T>) -> T { lp(self, a.data().iter().zip(b.data().iter()).map(|(x, y)| *x - *y)) } }
    impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Lp<T> {
        fn norm(&self, m: &M) -> T { let v: Vec<T> = ::matrix::flat(m); lp(self, v.into_iter()) }
    }
}

pub mod vector {
    use num::{Zero, Float, FromPrimitive};
    use std::ops::*;
    use std::iter::FromIterator;
    use std::{fmt, slice, vec};
    #[derive(Debug, PartialEq, Eq, Hash, Clone)]
    pub struct Vector<T> { data: Vec<T> }
    impl<T> Vector<T> {
        pub fn new<U: Into<Vec<T>>>(data: U) -> Vector<T> { Vector { data: data.into() } }
        pub fn from_fn<F: FnMut(usize) -> T>(size: usize, f: F) -> Vector<T> { Vector { data: (0..size).map(f).collect() } }
        pub fn size(&self) -> usize { self.data.len() }
        pub fn data(&self) -> &Vec<T> { &self.data }
        pub fn mut_data(&mut self) -> &mut [T] { &mut self.data }
        pub fn into_vec(self) -> Vec<T> { self.data }
        pub fn iter(&self) -> slice::Iter<T> { self.data.iter() }
        pub fn iter_mut(&mut self) -> slice::IterMut<T> { self.data.iter_mut() }
        pub unsafe fn get_unchecked(&self, i: usize) -> &T { assert!(i < self.data.len(), "SHIM-UB: get_unchecked out of bounds"); &self.data[i] }
        pub unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T { assert!(i < self.data.len(), "SHIM-UB: get_unchecked_mut out of bounds"); &mut self.data[i] }
    }
    impl<T> Into<Vec<T>> for Vector<T> { fn into(self) -> Vec<T> { self.data } }
    impl<'a, T: Clone> From<&'a [T]> for Vector<T> { fn from(s: &'a [T]) -> Vector<T> { Vector { data: s.to_vec() } } }
    impl<T> From<Vec<T>> for Vector<T> { fn from(s: Vec<T>) -> Vector<T> { Vector { data: s } } }
    impl<T> FromIterator<T> for Vector<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Vector<T> { Vector { data: i.into_iter().collect() } } }
    impl<T> IntoIterator for Vector<T> { type Item = T; type IntoIter = vec::IntoIter<T>; fn into_iter(self) -> vec::IntoIter<T> { self.data.into_iter() } }
    impl<'a, T> IntoIterator for &'a Vector<T> { type Item = &'a T; type IntoIter = slice::Iter<'a, T>; fn into_iter(self) -> slice::Iter<'a, T> { self.data.iter() } }
    impl<'a, T> IntoIterator for &'a mut Vector<T> { type Item = &'a mut T; type IntoIter = slice::IterMut<'a, T>; fn into_iter(self) -> slice::IterMut<'a, T> { self.data.iter_mut() } }
    impl<T> AsRef<[T]> for Vector<T> { fn as_ref(&self) -> &[T] { &self.data } }
    impl<T: fmt::Display> fmt::Display for Vector<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { try!(write!(f, "[")); for x in &self.data { try!(write!(f, "{} ", x)); } write!(f, "]") } }
    impl<T: Clone> Vector<T> {
        pub fn apply(mut self, f: &Fn(T) -> T) -> Vector<T> { for x in &mut self.data { *x = f(x.clone()); } self }
    }
    impl<T: Copy> Vector<T> {
        pub fn select(&self, idxs: &[usize]) -> Vector<T> { Vector { data: idxs.iter().map(|i| self.data[*i]).collect() } }
    }
    impl<T: Clone + Zero> Vector<T> { pub fn zeros(n: usize) -> Vector<T> { Vector { data: vec![T::zero(); n] } } }
    impl<T: Clone + ::num::One> Vector<T> { pub fn ones(n: usize) -> Vector<T> { Vector { data: vec![T::one(); n] } } }
    impl<T: Copy + PartialOrd> Vector<T> {
        pub fn argmax(&self) -> (usize, T) { ::utils::argmax(&self.data) }
        pub fn argmin(&self) -> (usize, T) { ::utils::argmin(&self.data) }
    }
    impl<T: Copy + Zero + Add<T, Output = T>> Vector<T> { pub fn sum(&self) -> T { ::utils::vec_sum(&self.data) } }
    impl<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Vector<T> { pub fn dot(&self, v: &Vector<T>) -> T { ::utils::dot(&self.data, &v.data) } }
    impl<T: Copy + Mul<T, Output = T>> Vector<T> { pub fn elemul(&self, v: &Vector<T>) -> Vector<T> { assert!(self.size() == v.size(), "Vectors must be of same size"); Vector { data: ::utils::vec_bin_op(&self.data, &v.data, |x, y| x * y) } } }
    impl<T: Copy + Div<T, Output = T>> Vector<T> { pub fn elediv(&self, v: &Vector<T>) -> Vector<T> { assert!(self.size() == v.size(), "Vectors must be of same size"); Vector { data: ::utils::vec_bin_op(&self.data, &v.data, |x, y| x / y) } } }
    impl<T: Float + FromPrimitive> Vector<T> {
        pub fn mean(&self) -> T { self.sum() / FromPrimitive::from_usize(self.size()).unwrap() }
        pub fn variance(&self) -> T { let m = self.mean(); let mut v = T::zero(); for x in &self.data { v = v + (*x - m) * (*x - m); } v / FromPrimitive::from_usize(self.size() - 1).unwrap() }
    }
    impl<T> Index<usize> for Vector<T> { type Output = T; fn index(&self, i: usize) -> &T { assert!(i < self.data.len()); &self.data[i] } }
    impl<T> IndexMut<usize> for Vector<T> { fn index_mut(&mut self, i: usize) -> &mut T { assert!(i < self.data.len()); &mut self.data[i] } }
    macro_rules! ops { ($($Tr:ident $f:ident $TrA:ident $fa:ident $op:tt;)*) => {$(
        impl<T: Copy + $Tr<T, Output = T>> $Tr<T> for Vector<T> { type Output = Vector<T>; fn $f(self, s: T) -> Vector<T> { Vector { data: self.data.into_iter().map(|x| x $op s).collect() } } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $Tr<&'a T> for Vector<T> { type Output = Vector<T>; fn $f(self, s: &T) -> Vector<T> { let s = *s; Vector { data: self.data.into_iter().map(|x| x $op s).collect() } } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $Tr<T> for &'a Vector<T> { type Output = Vector<T>; fn $f(self, s: T) -> Vector<T> { Vector { data: self.data.iter().map(|x| *x $op s).collect() } } }
        impl<'a, 'b, T: Copy + $Tr<T, Output = T>> $Tr<&'b T> for &'a Vector<T> { type Output = Vector<T>; fn $f(self, s: &T) -> Vector<T> { let s = *s; Vector { data: self.data.iter().map(|x| *x $op s).collect() } } }
        impl<T: Copy + $Tr<T, Output = T>> $TrA<T> for Vector<T> { fn $fa(&mut self, s: T) { for x in &mut self.data { *x = *x $op s; } } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $TrA<&'a T> for Vector<T> { fn $fa(&mut self, s: &T) { for x in &mut self.data { *x = *x $op *s; } } }
    )*}}
    ops!(Add add AddAssign add_assign +; Sub sub SubAssign sub_assign -; Mul mul MulAssign mul_assign *; Div div DivAssign div_assign /; Rem rem RemAssign rem_assign %;);
    macro_rules! vops { ($($Tr:ident $f:ident $TrA:ident $fa:ident $op:tt;)*) => {$(
        impl<T: Copy + $Tr<T, Output = T>> $Tr<Vector<T>> for Vector<T> { type Output = Vector<T>; fn $f(self, v: Vector<T>) -> Vector<T> { &self $op &v } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $Tr<&'a Vector<T>> for Vector<T> { type Output = Vector<T>; fn $f(self, v: &Vector<T>) -> Vector<T> { &self $op v } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $Tr<Vector<T>> for &'a Vector<T> { type Output = Vector<T>; fn $f(self, v: Vector<T>) -> Vector<T> { self $op &v } }
        impl<'a, 'b, T: Copy + $Tr<T, Output = T>> $Tr<&'b Vector<T>> for &'a Vector<T> { type Output = Vector<T>; fn $f(self, v: &Vector<T>) -> Vector<T> { assert!(self.size() == v.size(), "Vectors must be of same size"); Vector { data: ::utils::vec_bin_op(&self.data, &v.data, |x, y| x $op y) } } }
        impl<T: Copy + $Tr<T, Output = T>> $TrA<Vector<T>> for Vector<T> { fn $fa(&mut self, v: Vector<T>) { assert!(self.size() == v.size()); ::utils::in_place_vec_bin_op(&mut self.data, &v.data, |x, y| *x = *x $op *y); } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $TrA<&'a Vector<T>> for Vector<T> { fn $fa(&mut self, v: &Vector<T>) { assert!(self.size() == v.size()); ::utils::in_place_vec_bin_op(&mut self.data, &v.data, |x, y| *x = *x $op *y); } }
    )*}}
    vops!(Add add AddAssign add_assign +; Sub sub SubAssign sub_assign -;);
    impl<T: Neg<Output = T> + Copy> Neg for Vector<T> { type Output = Vector<T>; fn neg(self) -> Vector<T> { Vector { data: self.data.into_iter().map(|x| -x).collect() } } }
    impl<'a, T: Neg<Output = T> + Copy> Neg for &'a Vector<T> { type Output = Vector<T>; fn neg(self) -> Vector<T> { Vector { data: self.data.iter().map(|x| -*x).collect() } } }
}

pub mod matrix {
    use num::{Zero, One, Float, Signed, FromPrimitive};
    use std::ops::*;
    use std::any::Any;
    use std::iter::FromIterator;
    use std::marker::PhantomData;
    use std::{fmt, slice};
    use error::{Error, ErrorKind};
    use vector::Vector;

    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum Axes { Row, Col }
    #[derive(Debug, PartialEq, Eq, Hash, Clone)]
    pub struct Matrix<T> { rows: usize, cols: usize, data: Vec<T> }
    #[derive(Debug, Clone, Copy)]
    pub struct MatrixSlice<'a, T: 'a> { ptr: *const T, rows: usize, cols: usize, row_stride: usize, marker: PhantomData<&'a T> }
    #[derive(Debug)]
    pub struct MatrixSliceMut<'a, T: 'a> { ptr: *mut T, rows: usize, cols: usize, row_stride: usize, marker: PhantomData<&'a mut T> }
    #[derive(Debug, Clone, Copy)]
    pub struct Row<'a, T: 'a> { row: MatrixSlice<'a, T> }
    #[derive(Debug)]
    pub struct RowMut<'a, T: 'a> { row: MatrixSliceMut<'a, T> }
    #[derive(Debug, Clone, Copy)]
    pub struct Column<'a, T: 'a> { col: MatrixSlice<'a, T> }
    #[derive(Debug)]
    pub struct ColumnMut<'a, T: 'a> { col: MatrixSliceMut<'a, T> }

    pub fn flat<T: Copy, M: BaseMatrix<T>>(m: &M) -> Vec<T> {
        let mut v = Vec::with_capacity(m.rows() * m.cols());
        for i in 0..m.rows() { for j in 0..m.cols() { v.push(m.get_chk(i, j)); } } v
    }

    pub trait BaseMatrix<T>: Sized {
        fn rows(&self) -> usize;
        fn cols(&self) -> usize;
        fn row_stride(&self) -> usize;
        fn as_ptr(&self) -> *const T;
        fn is_empty(&self) -> bool { self.rows() == 0 || self.cols() == 0 }
        fn get_chk(&self, i: usize, j: usize) -> T where T: Copy { assert!(i < self.rows() && j < self.cols()); unsafe { *self.as_ptr().offset((i * self.row_stride() + j) as isize) } }
        fn as_slice(&self) -> MatrixSlice<T> { MatrixSlice { ptr: self.as_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData } }
        unsafe fn get_unchecked(&self, index: [usize; 2]) -> &T { assert!(index[0] < self.rows() && index[1] < self.cols(), "SHIM-UB: matrix get_unchecked out of bounds"); &*self.as_ptr().offset((index[0] * self.row_stride() + index[1]) as isize) }
        fn get(&self, index: [usize; 2]) -> Option<&T> { if index[0] >= self.rows() || index[1] >= self.cols() { None } else { unsafe { Some(self.get_unchecked(index)) } } }
        fn row(&self, index: usize) -> Row<T> { assert!(index < self.rows(), "Row index {} larger than row count {}.", index, self.rows()); unsafe { self.row_unchecked(index) } }
        unsafe fn row_unchecked(&self, index: usize) -> Row<T> { assert!(index < self.rows(), "SHIM-UB: row_unchecked out of bounds"); Row { row: MatrixSlice { ptr: self.as_ptr().offset((index * self.row_stride()) as isize), rows: 1, cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData } } }
        fn col(&self, index: usize) -> Column<T> { assert!(index < self.cols()); Column { col: MatrixSlice { ptr: unsafe { self.as_ptr().offset(index as isize) }, rows: self.rows(), cols: 1, row_stride: self.row_stride(), marker: PhantomData } } }
        fn sub_slice<'a>(&'a self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> where T: 'a { MatrixSlice::from_matrix(self, start, rows, cols) }
        fn iter<'a>(&self) -> SliceIter<'a, T> where T: 'a { SliceIter { ptr: self.as_ptr(), i: 0, rows: self.rows(), cols: self.cols(), stride: self.row_stride(), marker: PhantomData } }
        fn row_iter(&self) -> Rows<T> { Rows { m: self.as_slice(), i: 0, e: self.rows() } }
        fn iter_rows<'a>(&'a self) -> Rows<'a, T> where T: 'a { self.row_iter() }
        fn col_iter(&self) -> Cols<T> { Cols { m: self.as_slice(), i: 0, e: self.cols() } }
        fn sum_rows(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> { let mut v = vec![T::zero(); self.cols()]; for i in 0..self.rows() { for j in 0..self.cols() { v[j] = v[j] + self.get_chk(i, j); } } Vector::new(v) }
        fn sum_cols(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> { let mut v = vec![T::zero(); self.rows()]; for i in 0..self.rows() { for j in 0..self.cols() { v[i] = v[i] + self.get_chk(i, j); } } Vector::new(v) }
        fn sum(&self) -> T where T: Copy + Zero + Add<T, Output = T> { let mut s = T::zero(); for i in 0..self.rows() { for j in 0..self.cols() { s = s + self.get_chk(i, j); } } s }
        fn min(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd { match axis { Axes::Row => Vector::new((0..self.cols()).map(|j| (0..self.rows()).map(|i| self.get_chk(i, j)).fold(self.get_chk(0, j), |a, b| if b < a { b } else { a })).collect::<Vec<T>>()), Axes::Col => Vector::new((0..self.rows()).map(|i| (0..self.cols()).map(|j| self.get_chk(i, j)).fold(self.get_chk(i, 0), |a, b| if b < a { b } else { a })).collect::<Vec<T>>()) } }
        fn max(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd { match axis { Axes::Row => Vector::new((0..self.cols()).map(|j| (0..self.rows()).map(|i| self.get_chk(i, j)).fold(self.get_chk(0, j), |a, b| if b > a { b } else { a })).collect::<Vec<T>>()), Axes::Col => Vector::new((0..self.rows()).map(|i| (0..self.cols()).map(|j| self.get_chk(i, j)).fold(self.get_chk(i, 0), |a, b| if b > a { b } else { a })).collect::<Vec<T>>()) } }
        fn into_matrix(self) -> Matrix<T> where T: Copy { Matrix { rows: self.rows(), cols: self.cols(), data: flat(&self) } }
        fn elemul(&self, m: &Matrix<T>) -> Matrix<T> where T: Copy + Mul<T, Output = T> { assert!(self.rows() == m.rows(), "Matrix row counts not equal."); assert!(self.cols() == m.cols(), "Matrix column counts not equal."); zip_m(self, m, |x, y| x * y) }
        fn elediv(&self, m: &Matrix<T>) -> Matrix<T> where T: Copy + Div<T, Output = T> { assert!(self.rows() == m.rows(), "Matrix row counts not equal."); assert!(self.cols() == m.cols(), "Matrix column counts not equal."); zip_m(self, m, |x, y| x / y) }
        fn select_rows<'a, I>(&self, rows: I) -> Matrix<T> where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone {
            let it = rows.into_iter(); let mut d = Vec::with_capacity(it.len() * self.cols());
            for r in it.clone() { assert!(*r < self.rows(), "Row index out of bounds"); for j in 0..self.cols() { d.push(self.get_chk(*r, j)); } }
            Matrix { rows: it.len(), cols: self.cols(), data: d } }
        fn select_cols<'a, I>(&self, cols: I) -> Matrix<T> where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone {
            let it = cols.into_iter(); let mut d = Vec::with_capacity(it.len() * self.rows());
            for i in 0..self.rows() { for c in it.clone() { assert!(*c < self.cols(), "Column index out of bounds"); d.push(self.get_chk(i, *c)); } }
            Matrix { rows: self.rows(), cols: it.len(), data: d } }
        fn select(&self, rows: &[usize], cols: &[usize]) -> Matrix<T> where T: Copy { Matrix::from_fn(cols.len(), rows.len(), |c, r| self.get_chk(rows[r], cols[c])).resh(rows.len(), cols.len()) }
        fn hcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T> where T: Copy {
            assert!(self.rows() == m.rows(), "Matrix row counts are not equal.");
            let mut d = Vec::with_capacity((self.cols() + m.cols()) * self.rows());
            for i in 0..self.rows() { for j in 0..self.cols() { d.push(self.get_chk(i, j)); } for j in 0..m.cols() { d.push(m.get_chk(i, j)); } }
            Matrix { rows: self.rows(), cols: self.cols() + m.cols(), data: d } }
        fn vcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T> where T: Copy { assert!(self.cols() == m.cols(), "Matrix column counts are not equal."); let mut d = flat(self); d.extend(flat(m)); Matrix { rows: self.rows() + m.rows(), cols: self.cols(), data: d } }
        fn transpose(&self) -> Matrix<T> where T: Copy { let mut d = Vec::with_capacity(self.rows() * self.cols()); for j in 0..self.cols() { for i in 0..self.rows() { d.push(self.get_chk(i, j)); } } Matrix { rows: self.cols(), cols: self.rows(), data: d } }
        fn split_at(&self, mid: usize, axis: Axes) -> (MatrixSlice<T>, MatrixSlice<T>) { match axis { Axes::Row => { assert!(mid < self.rows()); (MatrixSlice::from_matrix(self, [0, 0], mid, self.cols()), MatrixSlice::from_matrix(self, [mid, 0], self.rows() - mid, self.cols())) } Axes::Col => { assert!(mid < self.cols()); (MatrixSlice::from_matrix(self, [0, 0], self.rows(), mid), MatrixSlice::from_matrix(self, [0, mid], self.rows(), self.cols() - mid)) } } }
        fn solve_u_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Any + Float {
            assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
            let n = y.size(); let mut x = y.into_vec();
            for i in (0..n).rev() { let d = self.get_chk(i, i); if d.abs() < T::min_positive_value() { return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular).")); } let mut s = x[i]; for j in i + 1..n { s = s - self.get_chk(i, j) * x[j]; } x[i] = s / d; }
            Ok(Vector::new(x)) }
        fn solve_l_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Any + Float {
            assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
            let n = y.size(); let mut x = y.into_vec();
            for i in 0..n { let d = self.get_chk(i, i); if d.abs() < T::min_positive_value() { return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular).")); } let mut s = x[i]; for j in 0..i { s = s - self.get_chk(i, j) * x[j]; } x[i] = s / d; }
            Ok(Vector::new(x)) }
    }
    pub trait BaseMatrixMut<T>: BaseMatrix<T> {
        fn as_mut_ptr(&mut self) -> *mut T;
        fn as_mut_slice(&mut self) -> MatrixSliceMut<T> { MatrixSliceMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData } }
        unsafe fn get_unchecked_mut(&mut self, index: [usize; 2]) -> &mut T { assert!(index[0] < self.rows() && index[1] < self.cols(), "SHIM-UB: matrix get_unchecked_mut out of bounds"); let s = self.row_stride(); &mut *self.as_mut_ptr().offset((index[0] * s + index[1]) as isize) }
        fn get_mut(&mut self, index: [usize; 2]) -> Option<&mut T> { if index[0] >= self.rows() || index[1] >= self.cols() { None } else { unsafe { Some(self.get_unchecked_mut(index)) } } }
        fn row_mut(&mut self, index: usize) -> RowMut<T> { assert!(index < self.rows(), "Row index out of bounds"); unsafe { self.row_unchecked_mut(index) } }
        unsafe fn row_unchecked_mut(&mut self, index: usize) -> RowMut<T> { assert!(index < self.rows(), "SHIM-UB: row_unchecked_mut out of bounds"); let s = self.row_stride(); RowMut { row: MatrixSliceMut { ptr: self.as_mut_ptr().offset((index * s) as isize), rows: 1, cols: self.cols(), row_stride: s, marker: PhantomData } } }
        fn iter_mut<'a>(&mut self) -> SliceIterMut<'a, T> where T: 'a { SliceIterMut { ptr: self.as_mut_ptr(), i: 0, rows: self.rows(), cols: self.cols(), stride: self.row_stride(), marker: PhantomData } }
        fn row_iter_mut(&mut self) -> RowsMut<T> { let e = self.rows(); RowsMut { m: self.as_mut_slice(), i: 0, e: e } }
        fn iter_rows_mut(&mut self) -> RowsMut<T> { self.row_iter_mut() }
        fn set_to<M: BaseMatrix<T>>(self, target: M) where T: Copy, Self: Sized { let mut s = self; assert!(s.rows() == target.rows() && s.cols() == target.cols()); for i in 0..s.rows() { for j in 0..s.cols() { unsafe { *s.get_unchecked_mut([i, j]) = target.get_chk(i, j); } } } }
        fn apply(mut self, f: &Fn(T) -> T) -> Self where T: Copy { for i in 0..self.rows() { for j in 0..self.cols() { unsafe { let v = *self.get_unchecked([i, j]); *self.get_unchecked_mut([i, j]) = f(v); } } } self }
        fn swap_rows(&mut self, a: usize, b: usize) { assert!(a < self.rows(), "Row index larger than row count"); assert!(b < self.rows(), "Row index larger than row count"); if a != b { let (s, c) = (self.row_stride(), self.cols()); unsafe { let p = self.as_mut_ptr(); for j in 0..c { ::std::ptr::swap(p.offset((a * s + j) as isize), p.offset((b * s + j) as isize)); } } } }
        fn swap_cols(&mut self, a: usize, b: usize) { assert!(a < self.cols()); assert!(b < self.cols()); if a != b { let (s, r) = (self.row_stride(), self.rows()); unsafe { let p = self.as_mut_ptr(); for i in 0..r { ::std::ptr::swap(p.offset((i * s + a) as isize), p.offset((i * s + b) as isize)); } } } }
    }
    impl<T> BaseMatrix<T> for Matrix<T> { fn rows(&self) -> usize { self.rows } fn cols(&self) -> usize { self.cols } fn row_stride(&self) -> usize { self.cols } fn as_ptr(&self) -> *const T { self.data.as_ptr() }
        fn into_matrix(self) -> Matrix<T> where T: Copy { self } }
    impl<T> BaseMatrixMut<T> for Matrix<T> { fn as_mut_ptr(&mut self) -> *mut T { self.data.as_mut_ptr() } }
    impl<'a, T> BaseMatrix<T> for MatrixSlice<'a, T> { fn rows(&self) -> usize { self.rows } fn cols(&self) -> usize { self.cols } fn row_stride(&self) -> usize { self.row_stride } fn as_ptr(&self) -> *const T { self.ptr } }
    impl<'a, T> BaseMatrix<T> for MatrixSliceMut<'a, T> { fn rows(&self) -> usize { self.rows } fn cols(&self) -> usize { self.cols } fn row_stride(&self) -> usize { self.row_stride } fn as_ptr(&self) -> *const T { self.ptr as *const T } }
    impl<'a, T> BaseMatrixMut<T> for MatrixSliceMut<'a, T> { fn as_mut_ptr(&mut self) -> *mut T { self.ptr } }
    impl<'a, T> BaseMatrix<T> for Row<'a, T> { fn rows(&self) -> usize { 1 } fn cols(&self) -> usize { self.row.cols } fn row_stride(&self) -> usize { self.row.row_stride } fn as_ptr(&self) -> *const T { self.row.ptr } }
    impl<'a, T> BaseMatrix<T> for RowMut<'a, T> { fn rows(&self) -> usize { 1 } fn cols(&self) -> usize { self.row.cols } fn row_stride(&self) -> usize { self.row.row_stride } fn as_ptr(&self) -> *const T { self.row.ptr as *const T } }
    impl<'a, T> BaseMatrixMut<T> for RowMut<'a, T> { fn as_mut_ptr(&mut self) -> *mut T { self.row.ptr } }
    impl<'a, T> BaseMatrix<T> for Column<'a, T> { fn rows(&self) -> usize { self.col.rows } fn cols(&self) -> usize { 1 } fn row_stride(&self) -> usize { self.col.row_stride } fn as_ptr(&self) -> *const T { self.col.ptr } }

    impl<'a, T> Deref for Row<'a, T> { type Target = MatrixSlice<'a, T>; fn deref(&self) -> &MatrixSlice<'a, T> { &self.row } }
    impl<'a, T> Deref for RowMut<'a, T> { type Target = MatrixSliceMut<'a, T>; fn deref(&self) -> &MatrixSliceMut<'a, T> { &self.row } }
    impl<'a, T> DerefMut for RowMut<'a, T> { fn deref_mut(&mut self) -> &mut MatrixSliceMut<'a, T> { &mut self.row } }
    impl<'a, T> Deref for Column<'a, T> { type Target = MatrixSlice<'a, T>; fn deref(&self) -> &MatrixSlice<'a, T> { &self.col } }
    impl<'a, T: 'a> Row<'a, T> { pub fn raw_slice(&self) -> &'a [T] { unsafe { slice::from_raw_parts(self.row.ptr, self.row.cols) } } pub fn iter(&self) -> SliceIter<'a, T> { self.row.iter() } }
    impl<'a, T: 'a> RowMut<'a, T> { pub fn raw_slice(&self) -> &'a [T] { unsafe { slice::from_raw_parts(self.row.ptr as *const T, self.row.cols) } } pub fn raw_slice_mut(&mut self) -> &'a mut [T] { unsafe { slice::from_raw_parts_mut(self.row.ptr, self.row.cols) } } }
    impl<'a, T> Index<usize> for Row<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.raw_slice()[i] } }
    impl<'a, T> Index<usize> for RowMut<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.raw_slice()[i] } }
    impl<'a, T> IndexMut<usize> for RowMut<'a, T> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.raw_slice_mut()[i] } }
    impl<'a, T> Index<usize> for Column<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { assert!(i < self.col.rows); unsafe { &*self.col.ptr.offset((i * self.col.row_stride) as isize) } } }
    impl<'a, T> IntoIterator for Row<'a, T> { type Item = &'a T; type IntoIter = SliceIter<'a, T>; fn into_iter(self) -> SliceIter<'a, T> { self.row.iter() } }
    impl<'a, T> IntoIterator for RowMut<'a, T> { type Item = &'a mut T; type IntoIter = SliceIterMut<'a, T>; fn into_iter(mut self) -> SliceIterMut<'a, T> { self.row.iter_mut() } }

    #[derive(Debug, Clone)] pub struct SliceIter<'a, T: 'a> { ptr: *const T, i: usize, rows: usize, cols: usize, stride: usize, marker: PhantomData<&'a T> }
    #[derive(Debug)] pub struct SliceIterMut<'a, T: 'a> { ptr: *mut T, i: usize, rows: usize, cols: usize, stride: usize, marker: PhantomData<&'a mut T> }
    impl<'a, T> Iterator for SliceIter<'a, T> { type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> { if self.cols == 0 || self.i >= self.rows * self.cols { None } else { let o = (self.i / self.cols) * self.stride + self.i % self.cols; self.i += 1; Some(unsafe { &*self.ptr.offset(o as isize) }) } }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.rows * self.cols - self.i; (n, Some(n)) } }
    impl<'a, T> ExactSizeIterator for SliceIter<'a, T> {}
    impl<'a, T> Iterator for SliceIterMut<'a, T> { type Item = &'a mut T;
        fn next(&mut self) -> Option<&'a mut T> { if self.cols == 0 || self.i >= self.rows * self.cols { None } else { let o = (self.i / self.cols) * self.stride + self.i % self.cols; self.i += 1; Some(unsafe { &mut *self.ptr.offset(o as isize) }) } }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.rows * self.cols - self.i; (n, Some(n)) } }
    impl<'a, T> ExactSizeIterator for SliceIterMut<'a, T> {}
    #[derive(Debug, Clone)] pub struct Rows<'a, T: 'a> { m: MatrixSlice<'a, T>, i: usize, e: usize }
    #[derive(Debug)] pub struct RowsMut<'a, T: 'a> { m: MatrixSliceMut<'a, T>, i: usize, e: usize }
    #[derive(Debug, Clone)] pub struct Cols<'a, T: 'a> { m: MatrixSlice<'a, T>, i: usize, e: usize }
    fn rowat<'a, T>(m: &MatrixSlice<'a, T>, i: usize) -> Row<'a, T> { Row { row: MatrixSlice { ptr: unsafe { m.ptr.offset((i * m.row_stride) as isize) }, rows: 1, cols: m.cols, row_stride: m.row_stride, marker: PhantomData } } }
    impl<'a, T> Iterator for Rows<'a, T> { type Item = Row<'a, T>;
        fn next(&mut self) -> Option<Row<'a, T>> { if self.i >= self.e { None } else { let r = rowat(&self.m, self.i); self.i += 1; Some(r) } }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.e - self.i; (n, Some(n)) } }
    impl<'a, T> DoubleEndedIterator for Rows<'a, T> { fn next_back(&mut self) -> Option<Row<'a, T>> { if self.i >= self.e { None } else { self.e -= 1; Some(rowat(&self.m, self.e)) } } }
    impl<'a, T> ExactSizeIterator for Rows<'a, T> {}
    impl<'a, T> Iterator for RowsMut<'a, T> { type Item = RowMut<'a, T>;
        fn next(&mut self) -> Option<RowMut<'a, T>> { if self.i >= self.e { None } else { let m = &self.m; let r = RowMut { row: MatrixSliceMut { ptr: unsafe { m.ptr.offset((self.i * m.row_stride) as isize) }, rows: 1, cols: m.cols, row_stride: m.row_stride, marker: PhantomData } }; self.i += 1; Some(r) } }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.e - self.i; (n, Some(n)) } }
    impl<'a, T> ExactSizeIterator for RowsMut<'a, T> {}
    impl<'a, T> Iterator for Cols<'a, T> { type Item = Column<'a, T>;
        fn next(&mut self) -> Option<Column<'a, T>> { if self.i >= self.e { None } else { let m = &self.m; let r = Column { col: MatrixSlice { ptr: unsafe { m.ptr.offset(self.i as isize) }, rows: m.rows, cols: 1, row_stride: m.row_stride, marker: PhantomData } }; self.i += 1; Some(r) } }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.e - self.i; (n, Some(n)) } }
    impl<'a, T> ExactSizeIterator for Cols<'a, T> {}

    impl<'a, T> MatrixSlice<'a, T> {
        pub fn from_matrix<M: BaseMatrix<T>>(m: &'a M, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> {
            assert!(start[0] + rows <= m.rows(), "View dimensions exceed matrix dimensions."); assert!(start[1] + cols <= m.cols(), "View dimensions exceed matrix dimensions.");
            MatrixSlice { ptr: unsafe { m.as_ptr().offset((start[0] * m.row_stride() + start[1]) as isize) }, rows: rows, cols: cols, row_stride: m.row_stride(), marker: PhantomData } }
        pub unsafe fn from_raw_parts(ptr: *const T, rows: usize, cols: usize, row_stride: usize) -> MatrixSlice<'a, T> { MatrixSlice { ptr: ptr, rows: rows, cols: cols, row_stride: row_stride, marker: PhantomData } }
    }
    impl<'a, T> MatrixSliceMut<'a, T> {
        pub fn from_matrix<M: BaseMatrixMut<T>>(m: &'a mut M, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> {
            assert!(start[0] + rows <= m.rows()); assert!(start[1] + cols <= m.cols());
            let s = m.row_stride(); MatrixSliceMut { ptr: unsafe { m.as_mut_ptr().offset((start[0] * s + start[1]) as isize) }, rows: rows, cols: cols, row_stride: s, marker: PhantomData } }
        pub unsafe fn from_raw_parts(ptr: *mut T, rows: usize, cols: usize, row_stride: usize) -> MatrixSliceMut<'a, T> { MatrixSliceMut { ptr: ptr, rows: rows, cols: cols, row_stride: row_stride, marker: PhantomData } }
    }

    fn zip_m<T: Copy, A: BaseMatrix<T>, B: BaseMatrix<T>, F: Fn(T, T) -> T>(a: &A, b: &B, f: F) -> Matrix<T> {
        let mut d = Vec::with_capacity(a.rows() * a.cols()); for i in 0..a.rows() { for j in 0..a.cols() { d.push(f(a.get_chk(i, j), b.get_chk(i, j))); } } Matrix { rows: a.rows(), cols: a.cols(), data: d } }
    fn map_m<T: Copy, A: BaseMatrix<T>, F: Fn(T) -> T>(a: &A, f: F) -> Matrix<T> {
        let mut d = Vec::with_capacity(a.rows() * a.cols()); for i in 0..a.rows() { for j in 0..a.cols() { d.push(f(a.get_chk(i, j))); } } Matrix { rows: a.rows(), cols: a.cols(), data: d } }

    impl<T> Matrix<T> {
        pub fn new<U: Into<Vec<T>>>(rows: usize, cols: usize, data: U) -> Matrix<T> { let d = data.into(); assert!(cols * rows == d.len(), "Data does not match given dimensions."); Matrix { rows: rows, cols: cols, data: d } }
        pub fn from_fn<F: FnMut(usize, usize) -> T>(rows: usize, cols: usize, mut f: F) -> Matrix<T> { let mut d = Vec::with_capacity(rows * cols); for r in 0..rows { for c in 0..cols { d.push(f(c, r)); } } Matrix { rows: rows, cols: cols, data: d } }
        pub fn rows(&self) -> usize { self.rows }
        pub fn cols(&self) -> usize { self.cols }
        pub fn data(&self) -> &Vec<T> { &self.data }
        pub fn mut_data(&mut self) -> &mut [T] { &mut self.data }
        pub fn into_vec(self) -> Vec<T> { self.data }
        fn resh(mut self, r: usize, c: usize) -> Matrix<T> { self.rows = r; self.cols = c; self }
    }
    impl<T: Clone + Zero> Matrix<T> {
        pub fn zeros(r: usize, c: usize) -> Matrix<T> { Matrix { rows: r, cols: c, data: vec![T::zero(); r * c] } }
        pub fn from_diag(d: &[T]) -> Matrix<T> { let n = d.len(); let mut m = Matrix::zeros(n, n); for i in 0..n { m.data[i * n + i] = d[i].clone(); } m }
    }
    impl<T: Clone + One> Matrix<T> { pub fn ones(r: usize, c: usize) -> Matrix<T> { Matrix { rows: r, cols: c, data: vec![T::one(); r * c] } } }
    impl<T: Clone + Zero + One> Matrix<T> { pub fn identity(n: usize) -> Matrix<T> { let mut m = Matrix::zeros(n, n); for i in 0..n { m.data[i * n + i] = T::one(); } m } }
    impl<T: Copy> Matrix<T> { pub fn diag(&self) -> Vector<T> { Vector::new((0..::std::cmp::min(self.rows, self.cols)).map(|i| self.data[i * self.cols + i]).collect::<Vec<T>>()) } }
    impl<T: fmt::Display> fmt::Display for Matrix<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for i in 0..self.rows { for j in 0..self.cols { try!(write!(f, "{} ", self.data[i * self.cols + j])); } try!(write!(f, "\n")); } Ok(()) } }
    impl<'a, T: 'a + Copy> FromIterator<&'a [T]> for Matrix<T> { fn from_iter<I: IntoIterator<Item = &'a [T]>>(it: I) -> Matrix<T> { let mut rows = 0; let mut cols = 0; let mut d = Vec::new(); for r in it { if rows == 0 { cols = r.len(); } else { assert!(cols == r.len()); } d.extend_from_slice(r); rows += 1; } Matrix { rows: rows, cols: cols, data: d } } }
    impl<'a, T: 'a + Copy> From<MatrixSlice<'a, T>> for Matrix<T> { fn from(s: MatrixSlice<'a, T>) -> Matrix<T> { s.into_matrix() } }
    impl<'a, T: 'a + Copy> From<Row<'a, T>> for Vector<T> { fn from(s: Row<'a, T>) -> Vector<T> { Vector::new(s.raw_slice().to_vec()) } }
    impl<'a, T: 'a + Copy> From<Column<'a, T>> for Vector<T> { fn from(s: Column<'a, T>) -> Vector<T> { Vector::new(flat(&s)) } }
    impl<T> From<Vector<T>> for Matrix<T> { fn from(v: Vector<T>) -> Matrix<T> { let n = v.size(); Matrix { rows: n, cols: 1, data: v.into_vec() } } }

    impl<T: Float + FromPrimitive> Matrix<T> {
        pub fn mean(&self, axis: Axes) -> Vector<T> { match axis { Axes::Row => { let n: T = FromPrimitive::from_usize(self.rows).unwrap(); self.sum_rows() / n } Axes::Col => { let n: T = FromPrimitive::from_usize(self.cols).unwrap(); self.sum_cols() / n } } }
        pub fn variance(&self, axis: Axes) -> Result<Vector<T>, Error> {
            let m = self.mean(axis);
            let (n, k) = match axis { Axes::Row => (self.rows, self.cols), Axes::Col => (self.cols, self.rows) };
            if n < 2 { return Err(Error::new(ErrorKind::InvalidArg, "There must be at least two rows or columns for the variance calculation.")); }
            let mut v = Vector::zeros(k);
            for a in 0..n { for b in 0..k { let x = match axis { Axes::Row => self.data[a * self.cols + b], Axes::Col => self.data[b * self.cols + a] }; let d = x - m[b]; v[b] = v[b] + d * d; } }
            let s: T = FromPrimitive::from_usize(n - 1).unwrap();
            Ok(v / s) }
    }
    impl<T: Any + Float> Matrix<T> {
        pub fn solve(self, y: Vector<T>) -> Result<Vector<T>, Error> { decomposition::PartialPivLu::decompose(self).and_then(|lu| lu.solve(y)) }
        pub fn inverse(self) -> Result<Matrix<T>, Error> { assert!(self.rows == self.cols, "Matrix is not square."); decomposition::PartialPivLu::decompose(self).and_then(|lu| lu.inverse()) }
        pub fn det(self) -> T { assert!(self.rows == self.cols, "Matrix is not square."); if self.rows == 0 { return T::one(); } match decomposition::PartialPivLu::decompose(self) { Ok(lu) => lu.det(), Err(_) => T::zero() } }
        pub fn cholesky(&self) -> Result<Matrix<T>, Error> where T: 'static { decomposition::Cholesky::decompose(self.clone()).map(|c| { use matrix::decomposition::Decomposition; c.unpack() }) }
    }
    impl<T: Any + Float + Signed> Matrix<T> {
        /// Singular value decomposition by one-sided Jacobi: (B, U, V) with self = U B V^T, sorted.
        pub fn svd(self) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> {
            let flip = self.cols > self.rows;
            let a = if flip { self.transpose() } else { self };
            let (m, n) = (a.rows, a.cols);
            let mut u = a; let mut v: Matrix<T> = Matrix::identity(n);
            let eps = T::epsilon();
            for _ in 0..60 {
                let mut off = T::zero();
                for p in 0..n { for q in p + 1..n {
                    let (mut al, mut be, mut ga) = (T::zero(), T::zero(), T::zero());
                    for i in 0..m { let x = u.data[i * n + p]; let y = u.data[i * n + q]; al = al + x * x; be = be + y * y; ga = ga + x * y; }
                    if ga == T::zero() || Float::abs(ga) <= eps * (al * be).sqrt() { continue; }
                    off = off + Float::abs(ga);
                    let two = T::one() + T::one();
                    let z = (be - al) / (two * ga);
                    let t = (if z >= T::zero() { T::one() } else { -T::one() }) / (Float::abs(z) + (T::one() + z * z).sqrt());
                    let c = T::one() / (T::one() + t * t).sqrt(); let s = c * t;
                    for i in 0..m { let x = u.data[i * n + p]; let y = u.data[i * n + q]; u.data[i * n + p] = c * x - s * y; u.data[i * n + q] = s * x + c * y; }
                    for i in 0..n { let x = v.data[i * n + p]; let y = v.data[i * n + q]; v.data[i * n + p] = c * x - s * y; v.data[i * n + q] = s * x + c * y; }
                } }
                if off == T::zero() { break; }
            }
            let sv: Vec<T> = (0..n).map(|j| { let mut s = T::zero(); for i in 0..m { s = s + u.data[i * n + j] * u.data[i * n + j]; } s.sqrt() }).collect();
            let mut idx: Vec<usize> = (0..n).collect();
            idx.sort_by(|a, b| sv[*b].partial_cmp(&sv[*a]).unwrap_or(::std::cmp::Ordering::Equal));
            let mut b = Matrix::zeros(n, n); let mut uu = Matrix::zeros(m, n); let mut vv = Matrix::zeros(n, n);
            for (k, &j) in idx.iter().enumerate() { b.data[k * n + k] = sv[j]; for i in 0..m { uu.data[i * n + k] = if sv[j] > T::zero() { u.data[i * n + j] / sv[j] } else { T::zero() }; } for i in 0..n { vv.data[i * n + k] = v.data[i * n + j]; } }
            if flip { Ok((b, vv, uu)) } else { Ok((b, uu, vv)) }
        }
    }

    impl<T> Index<[usize; 2]> for Matrix<T> { type Output = T; fn index(&self, x: [usize; 2]) -> &T { assert!(x[0] < self.rows, "Row index is greater than row dimension."); assert!(x[1] < self.cols, "Column index is greater than column dimension."); &self.data[x[0] * self.cols + x[1]] } }
    impl<T> IndexMut<[usize; 2]> for Matrix<T> { fn index_mut(&mut self, x: [usize; 2]) -> &mut T { assert!(x[0] < self.rows, "Row index is greater than row dimension."); assert!(x[1] < self.cols, "Column index is greater than column dimension."); &mut self.data[x[0] * self.cols + x[1]] } }
    macro_rules! sidx { ($($M:ident)*) => {$( impl<'a, T> Index<[usize; 2]> for $M<'a, T> { type Output = T; fn index(&self, x: [usize; 2]) -> &T { assert!(x[0] < self.rows, "Row index is greater than row dimension."); assert!(x[1] < self.cols, "Column index is greater than column dimension."); unsafe { &*self.ptr.offset((x[0] * self.row_stride + x[1]) as isize) } } } )*}}
    sidx!(MatrixSlice MatrixSliceMut);
    impl<'a, T> IndexMut<[usize; 2]> for MatrixSliceMut<'a, T> { fn index_mut(&mut self, x: [usize; 2]) -> &mut T { assert!(x[0] < self.rows); assert!(x[1] < self.cols); unsafe { &mut *self.ptr.offset((x[0] * self.row_stride + x[1]) as isize) } } }

    macro_rules! sops { ($M:ty, [$($g:tt)*], $Tr:ident $f:ident $op:tt) => {
        impl<$($g)* T: Copy + $Tr<T, Output = T>> $Tr<T> for $M { type Output = Matrix<T>; fn $f(self, s: T) -> Matrix<T> { map_m(&self, |x| x $op s) } }
        impl<'x, $($g)* T: Copy + $Tr<T, Output = T>> $Tr<&'x T> for $M { type Output = Matrix<T>; fn $f(self, s: &T) -> Matrix<T> { let s = *s; map_m(&self, |x| x $op s) } }
        impl<'x, $($g)* T: Copy + $Tr<T, Output = T>> $Tr<T> for &'x $M { type Output = Matrix<T>; fn $f(self, s: T) -> Matrix<T> { map_m(self, |x| x $op s) } }
        impl<'x, 'y, $($g)* T: Copy + $Tr<T, Output = T>> $Tr<&'y T> for &'x $M { type Output = Matrix<T>; fn $f(self, s: &T) -> Matrix<T> { let s = *s; map_m(self, |x| x $op s) } }
    } }
    sops!(Matrix<T>, [], Add add +);
    sops!(Matrix<T>, [], Sub sub -);
    sops!(Matrix<T>, [], Mul mul *);
    sops!(Matrix<T>, [], Div div /);
    sops!(Matrix<T>, [], Rem rem %);
    sops!(MatrixSlice<'a, T>, ['a,], Add add +);
    sops!(MatrixSlice<'a, T>, ['a,], Sub sub -);
    sops!(MatrixSlice<'a, T>, ['a,], Mul mul *);
    sops!(MatrixSlice<'a, T>, ['a,], Div div /);
    sops!(MatrixSlice<'a, T>, ['a,], Rem rem %);
    sops!(MatrixSliceMut<'a, T>, ['a,], Add add +);
    sops!(MatrixSliceMut<'a, T>, ['a,], Sub sub -);
    sops!(MatrixSliceMut<'a, T>, ['a,], Mul mul *);
    sops!(MatrixSliceMut<'a, T>, ['a,], Div div /);
    sops!(MatrixSliceMut<'a, T>, ['a,], Rem rem %);
    macro_rules! mops { ($M:ty, [$($g:tt)*], $N:ty, [$($h:tt)*]) => {
        mops!(@ $M, [$($g)*], $N, [$($h)*], Add add +);
        mops!(@ $M, [$($g)*], $N, [$($h)*], Sub sub -);
        impl<$($g)* $($h)* T: Any + Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<$N> for $M { type Output = Matrix<T>; fn mul(self, m: $N) -> Matrix<T> { mm(&self, &m) } }
        impl<'y, $($g)* $($h)* T: Any + Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<&'y $N> for $M { type Output = Matrix<T>; fn mul(self, m: &$N) -> Matrix<T> { mm(&self, m) } }
        impl<'x, $($g)* $($h)* T: Any + Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<$N> for &'x $M { type Output = Matrix<T>; fn mul(self, m: $N) -> Matrix<T> { mm(self, &m) } }
        impl<'x, 'y, $($g)* $($h)* T: Any + Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<&'y $N> for &'x $M { type Output = Matrix<T>; fn mul(self, m: &$N) -> Matrix<T> { mm(self, m) } }
    };
    (@ $M:ty, [$($g:tt)*], $N:ty, [$($h:tt)*], $Tr:ident $f:ident $op:tt) => {
        impl<$($g)* $($h)* T: Copy + $Tr<T, Output = T>> $Tr<$N> for $M { type Output = Matrix<T>; fn $f(self, m: $N) -> Matrix<T> { chk(&self, &m); zip_m(&self, &m, |x, y| x $op y) } }
        impl<'y, $($g)* $($h)* T: Copy + $Tr<T, Output = T>> $Tr<&'y $N> for $M { type Output = Matrix<T>; fn $f(self, m: &$N) -> Matrix<T> { chk(&self, m); zip_m(&self, m, |x, y| x $op y) } }
        impl<'x, $($g)* $($h)* T: Copy + $Tr<T, Output = T>> $Tr<$N> for &'x $M { type Output = Matrix<T>; fn $f(self, m: $N) -> Matrix<T> { chk(self, &m); zip_m(self, &m, |x, y| x $op y) } }
        impl<'x, 'y, $($g)* $($h)* T: Copy + $Tr<T, Output = T>> $Tr<&'y $N> for &'x $M { type Output = Matrix<T>; fn $f(self, m: &$N) -> Matrix<T> { chk(self, m); zip_m(self, m, |x, y| x $op y) } }
    }; }
    fn chk<T, A: BaseMatrix<T>, B: BaseMatrix<T>>(a: &A, b: &B) { assert!(a.cols() == b.cols(), "Column dimensions do not agree."); assert!(a.rows() == b.rows(), "Row dimensions do not agree."); }
    fn mm<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>, A: BaseMatrix<T>, B: BaseMatrix<T>>(a: &A, b: &B) -> Matrix<T> {
        assert!(a.cols() == b.rows(), "Matrix dimensions do not agree.");
        let mut d = Vec::with_capacity(a.rows() * b.cols());
        for i in 0..a.rows() { for j in 0..b.cols() { let mut s = T::zero(); for k in 0..a.cols() { s = s + a.get_chk(i, k) * b.get_chk(k, j); } d.push(s); } }
        Matrix { rows: a.rows(), cols: b.cols(), data: d } }
    mops!(Matrix<T>, [], Matrix<T>, []);
    mops!(Matrix<T>, [], MatrixSlice<'b, T>, ['b,]);
    mops!(MatrixSlice<'a, T>, ['a,], Matrix<T>, []);
    mops!(MatrixSlice<'a, T>, ['a,], MatrixSlice<'b, T>, ['b,]);
    macro_rules! mv { ($M:ty, [$($g:tt)*]) => {
        impl<$($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<Vector<T>> for $M { type Output = Vector<T>; fn mul(self, v: Vector<T>) -> Vector<T> { mvec(&self, &v) } }
        impl<'y, $($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<&'y Vector<T>> for $M { type Output = Vector<T>; fn mul(self, v: &Vector<T>) -> Vector<T> { mvec(&self, v) } }
        impl<'x, $($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<Vector<T>> for &'x $M { type Output = Vector<T>; fn mul(self, v: Vector<T>) -> Vector<T> { mvec(self, &v) } }
        impl<'x, 'y, $($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<&'y Vector<T>> for &'x $M { type Output = Vector<T>; fn mul(self, v: &Vector<T>) -> Vector<T> { mvec(self, v) } }
    } }
    fn mvec<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>, A: BaseMatrix<T>>(a: &A, v: &Vector<T>) -> Vector<T> {
        assert!(v.size() == a.cols(), "Matrix and Vector dimensions do not agree.");
        Vector::new((0..a.rows()).map(|i| (0..a.cols()).fold(T::zero(), |s, j| s + a.get_chk(i, j) * v[j])).collect::<Vec<T>>()) }
    mv!(Matrix<T>, []); mv!(MatrixSlice<'a, T>, ['a,]); mv!(MatrixSliceMut<'a, T>, ['a,]);

    macro_rules! asg { ($($TrA:ident $fa:ident $Tr:ident $op:tt;)*) => {$(
        impl<T: Copy + $Tr<T, Output = T>> $TrA<T> for Matrix<T> { fn $fa(&mut self, s: T) { for x in &mut self.data { *x = *x $op s; } } }
        impl<'b, T: Copy + $Tr<T, Output = T>> $TrA<&'b T> for Matrix<T> { fn $fa(&mut self, s: &T) { for x in &mut self.data { *x = *x $op *s; } } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $TrA<T> for MatrixSliceMut<'a, T> { fn $fa(&mut self, s: T) { for x in self.iter_mut() { *x = *x $op s; } } }
        impl<'a, 'b, T: Copy + $Tr<T, Output = T>> $TrA<&'b T> for MatrixSliceMut<'a, T> { fn $fa(&mut self, s: &T) { for x in self.iter_mut() { *x = *x $op *s; } } }
    )*}}
    asg!(AddAssign add_assign Add +; SubAssign sub_assign Sub -; MulAssign mul_assign Mul *; DivAssign div_assign Div /; RemAssign rem_assign Rem %;);
    fn masgn<T: Copy, A: BaseMatrixMut<T>, B: BaseMatrix<T>, F: Fn(T, T) -> T>(a: &mut A, b: &B, f: F) {
        chk(a, b); for i in 0..a.rows() { for j in 0..a.cols() { let v = f(a.get_chk(i, j), b.get_chk(i, j)); unsafe { *a.get_unchecked_mut([i, j]) = v; } } } }
    macro_rules! masg { ($($TrA:ident $fa:ident $Tr:ident $op:tt;)*) => {$(
        impl<T: Copy + $Tr<T, Output = T>> $TrA<Matrix<T>> for Matrix<T> { fn $fa(&mut self, m: Matrix<T>) { masgn(self, &m, |x, y| x $op y) } }
        impl<'b, T: Copy + $Tr<T, Output = T>> $TrA<&'b Matrix<T>> for Matrix<T> { fn $fa(&mut self, m: &Matrix<T>) { masgn(self, m, |x, y| x $op y) } }
        impl<'b, T: Copy + $Tr<T, Output = T>> $TrA<MatrixSlice<'b, T>> for Matrix<T> { fn $fa(&mut self, m: MatrixSlice<'b, T>) { masgn(self, &m, |x, y| x $op y) } }
        impl<'a, T: Copy + $Tr<T, Output = T>> $TrA<Matrix<T>> for MatrixSliceMut<'a, T> { fn $fa(&mut self, m: Matrix<T>) { masgn(self, &m, |x, y| x $op y) } }
        impl<'a, 'b, T: Copy + $Tr<T, Output = T>> $TrA<&'b Matrix<T>> for MatrixSliceMut<'a, T> { fn $fa(&mut self, m: &Matrix<T>) { masgn(self, m, |x, y| x $op y) } }
    )*}}
    masg!(AddAssign add_assign Add +; SubAssign sub_assign Sub -;);
    impl<T: Neg<Output = T> + Copy> Neg for Matrix<T> { type Output = Matrix<T>; fn neg(self) -> Matrix<T> { map_m(&self, |x| -x) } }
    impl<'a, T: Neg<Output = T> + Copy> Neg for &'a Matrix<T> { type Output = Matrix<T>; fn neg(self) -> Matrix<T> { map_m(self, |x| -x) } }

    pub mod decomposition {
        use super::*;
        pub trait Decomposition { type Factors; fn unpack(self) -> Self::Factors; }
        #[derive(Clone, Debug)] pub struct Cholesky<T> { l: Matrix<T> }
        impl<T: 'static + Float> Cholesky<T> {
            pub fn decompose(a: Matrix<T>) -> Result<Self, Error> {
                assert!(a.rows() == a.cols(), "Input matrix must be square.");
                let n = a.rows(); let mut l: Matrix<T> = Matrix::zeros(n, n);
                for j in 0..n {
                    let mut d = a[[j, j]]; for k in 0..j { d = d - l[[j, k]] * l[[j, k]]; }
                    if !(d > T::zero()) { return Err(Error::new(ErrorKind::DecompFailure, "Matrix is not positive definite.")); }
                    let s = d.sqrt(); l[[j, j]] = s;
                    for i in j + 1..n { let mut v = a[[i, j]]; for k in 0..j { v = v - l[[i, k]] * l[[j, k]]; } l[[i, j]] = v / s; }
                }
                Ok(Cholesky { l: l })
            }
            pub fn det(&self) -> T { let mut p = T::one(); for i in 0..self.l.rows() { p = p * self.l[[i, i]]; } p * p }
            pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> where T: Any { let y = try!(self.l.solve_l_triangular(b)); self.l.transpose().solve_u_triangular(y) }
        }
        impl<T: Zero> Decomposition for Cholesky<T> { type Factors = Matrix<T>; fn unpack(self) -> Matrix<T> { self.l } }
        #[derive(Debug, Clone)] pub struct PartialPivLu<T> { lu: Matrix<T>, p: Vec<usize>, sign: bool }
        impl<T: Any + Float> PartialPivLu<T> {
            pub fn decompose(m: Matrix<T>) -> Result<PartialPivLu<T>, Error> {
                assert!(m.rows() == m.cols(), "Matrix must be square for LU decomposition.");
                let n = m.cols(); let mut lu = m; let mut p: Vec<usize> = (0..n).collect(); let mut sign = false;
                for c in 0..n {
                    let mut b = c; for r in c + 1..n { if lu[[r, c]].abs() > lu[[b, c]].abs() { b = r; } }
                    if lu[[b, c]].abs() < T::epsilon() { return Err(Error::new(ErrorKind::DivByZero, "The matrix is too ill-conditioned for decomposition.")); }
                    if b != c { lu.swap_rows(b, c); p.swap(b, c); sign = !sign; }
                    for r in c + 1..n { let f = lu[[r, c]] / lu[[c, c]]; lu[[r, c]] = f; for k in c + 1..n { lu[[r, k]] = lu[[r, k]] - f * lu[[c, k]]; } }
                }
                Ok(PartialPivLu { lu: lu, p: p, sign: sign })
            }
            pub fn det(&self) -> T { let mut d = if self.sign { -T::one() } else { T::one() }; for i in 0..self.lu.rows() { d = d * self.lu[[i, i]]; } d }
            pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
                assert!(b.size() == self.lu.rows(), "Right-hand side vector must have compatible size.");
                let n = b.size(); let mut x: Vec<T> = self.p.iter().map(|i| b[*i]).collect();
                for i in 0..n { for j in 0..i { x[i] = x[i] - self.lu[[i, j]] * x[j]; } }
                for i in (0..n).rev() { for j in i + 1..n { x[i] = x[i] - self.lu[[i, j]] * x[j]; } x[i] = x[i] / self.lu[[i, i]]; }
                Ok(Vector::new(x))
            }
            pub fn inverse(&self) -> Result<Matrix<T>, Error> {
                let n = self.lu.rows(); let mut inv = Matrix::zeros(n, n);
                for j in 0..n { let mut e = Vector::zeros(n); e[j] = T::one(); let c = try!(self.solve(e)); for i in 0..n { inv[[i, j]] = c[i]; } }
                Ok(inv)
            }
        }
    }
}

#[macro_export]
macro_rules! matrix {
    () => { { $crate::matrix::Matrix::new(0, 0, vec![]) } };
    ($( $( $x:expr ),*; )*) => { matrix!($( $( $x ),*);*) };
    ($( $( $x:expr ),*);*) => { {
        let rows = vec![$( vec![$( $x ),*] ),*];
        let r = rows.len(); let c = rows[0].len();
        let d: Vec<_> = rows.into_iter().flat_map(|r| r.into_iter()).collect();
        $crate::matrix::Matrix::new(r, c, d)
    } };
}
#[macro_export]
macro_rules! vector { ($($x:expr),*) => { $crate::vector::Vector::new(vec![$($x),*]) }; }
pub fn __close(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol || (a.is_nan() && b.is_nan()) }
#[macro_export]
macro_rules! assert_matrix_eq {
    ($x:expr, $y:expr) => { { use $crate::matrix::BaseMatrix; let (a, b) = (&$x, &$y); assert!(a.rows() == b.rows() && a.cols() == b.cols(), "dimensions differ"); for i in 0..a.rows() { for j in 0..a.cols() { assert_eq!(a[[i, j]], b[[i, j]]); } } } };
    ($x:expr, $y:expr, comp = exact) => { assert_matrix_eq!($x, $y) };
    ($x:expr, $y:expr, comp = float) => { assert_matrix_eq!($x, $y, comp = abs, tol = 1e-12) };
    ($x:expr, $y:expr, comp = $c:ident, tol = $t:expr) => { { use $crate::matrix::BaseMatrix; let (a, b) = (&$x, &$y); assert!(a.rows() == b.rows() && a.cols() == b.cols(), "dimensions differ"); for i in 0..a.rows() { for j in 0..a.cols() { assert!($crate::__close(a[[i, j]] as f64, b[[i, j]] as f64, $t as f64), "{} != {} at {},{}", a[[i, j]], b[[i, j]], i, j); } } } };
}
#[macro_export]
macro_rules! assert_vector_eq {
    ($x:expr, $y:expr) => { { let (a, b) = (&$x, &$y); assert_eq!(a.size(), b.size()); for i in 0..a.size() { assert_eq!(a[i], b[i]); } } };
    ($x:expr, $y:expr, comp = exact) => { assert_vector_eq!($x, $y) };
    ($x:expr, $y:expr, comp = float) => { assert_vector_eq!($x, $y, comp = abs, tol = 1e-12) };
    ($x:expr, $y:expr, comp = $c:ident, tol = $t:expr) => { { let (a, b) = (&$x, &$y); assert_eq!(a.size(), b.size()); for i in 0..a.size() { assert!($crate::__close(a[i] as f64, b[i] as f64, $t as f64), "{} != {} at {}", a[i], b[i], i); } } };
}
