// Programs that use every arm of the construction macros, for arbitrary element types and
// values. rustc expands the macros (from /repo, every run); the expansions are verified.
#[macro_use]
extern crate matreex;
use matreex::Matrix;

pub fn macro_matrix_empty<T>() -> Matrix<T> {
    matrix![]
}
pub fn macro_matrix_fill<T: Clone>(e: T, nrows: usize, ncols: usize) -> Matrix<T> {
    matrix![[e; ncols]; nrows]
}
pub fn macro_matrix_repeat1<T: Clone>(a: T, nrows: usize) -> Matrix<T> {
    matrix![[a]; nrows]
}
pub fn macro_matrix_repeat3<T: Clone>(a: T, b: T, c: T, nrows: usize) -> Matrix<T> {
    matrix![[a, b, c]; nrows]
}
pub fn macro_matrix_1x1<T>(a: T) -> Matrix<T> {
    matrix![[a]]
}
pub fn macro_matrix_1x3<T>(a: T, b: T, c: T) -> Matrix<T> {
    matrix![[a, b, c]]
}
pub fn macro_matrix_3x1<T>(a: T, b: T, c: T) -> Matrix<T> {
    matrix![[a], [b], [c]]
}
pub fn macro_matrix_2x3<T>(a: T, b: T, c: T, d: T, e: T, f: T) -> Matrix<T> {
    matrix![[a, b, c], [d, e, f]]
}
pub fn macro_matrix_3x2<T>(a: T, b: T, c: T, d: T, e: T, f: T) -> Matrix<T> {
    matrix![[a, b], [c, d], [e, f],]
}
pub fn macro_row_empty<T>() -> Matrix<T> {
    row_vec![]
}
pub fn macro_row_fill<T: Clone>(e: T, n: usize) -> Matrix<T> {
    row_vec![e; n]
}
pub fn macro_row_1<T>(a: T) -> Matrix<T> {
    row_vec![a]
}
pub fn macro_row_3<T>(a: T, b: T, c: T) -> Matrix<T> {
    row_vec![a, b, c]
}
pub fn macro_col_empty<T>() -> Matrix<T> {
    col_vec![]
}
pub fn macro_col_fill<T: Clone>(e: T, n: usize) -> Matrix<T> {
    col_vec![e; n]
}
pub fn macro_col_1<T>(a: T) -> Matrix<T> {
    col_vec![a]
}
pub fn macro_col_3<T>(a: T, b: T, c: T) -> Matrix<T> {
    col_vec![a, b, c]
}
