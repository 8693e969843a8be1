// ===================================================================
// Assumed contracts of std functions that the bodies do not use today but that
// an edit may bring in: with them such an edit is decided by deduction instead
// of leaving the function outside the verifier's subset.
// ===================================================================
pub assume_specification<T> [ core::mem::replace ] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T: Default> [ core::mem::take ] (dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest));
pub assume_specification<T> [ core::mem::drop ] (x: T);
pub assume_specification<T> [ core::mem::forget ] (x: T);
pub assume_specification [ usize::overflowing_mul ] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a * b > usize::MAX), !r.1 ==> r.0 == a * b, r.1 ==> r.0 as int == (a * b) % (usize::MAX + 1);
pub assume_specification [ usize::overflowing_add ] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), r.0 as int == (if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b });
pub assume_specification [ usize::overflowing_sub ] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a < b), r.0 as int == (if a < b { a - b + usize::MAX + 1 } else { a - b });
pub assume_specification [ usize::abs_diff ] (a: usize, b: usize) -> (r: usize)
    ensures r as int == (if a < b { b - a } else { a - b });
pub assume_specification [ usize::div_ceil ] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r as int == (a + b - 1) / (b as int);
pub assume_specification [ usize::rem_euclid ] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a % b;
pub assume_specification [ usize::div_euclid ] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a / b;
pub assume_specification [ isize::rem_euclid ] (a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r as int == (if b > 0 { (a as int) % (b as int) } else { (a as int) % (-(b as int)) });
pub assume_specification [ isize::div_euclid ] (a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r as int == (if b > 0 { (a as int) / (b as int) } else { -((a as int) / (-(b as int))) });
pub assume_specification [ isize::abs ] (a: isize) -> (r: isize)
    requires a != isize::MIN,
    ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [ isize::wrapping_abs ] (a: isize) -> (r: isize)
    ensures r as int == (if a == isize::MIN { isize::MIN as int } else if a < 0 { -(a as int) } else { a as int });
pub assume_specification [ isize::wrapping_neg ] (a: isize) -> (r: isize)
    ensures r as int == (if a == isize::MIN { isize::MIN as int } else { -(a as int) });
pub assume_specification [ isize::checked_neg ] (a: isize) -> (r: Option<isize>)
    ensures r == (if a == isize::MIN { None } else { Some((-(a as int)) as isize) });
pub assume_specification [ isize::checked_abs ] (a: isize) -> (r: Option<isize>)
    ensures r == (if a == isize::MIN { None } else if a < 0 { Some((-(a as int)) as isize) } else { Some(a) });
pub assume_specification [ isize::is_negative ] (a: isize) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification [ isize::is_positive ] (a: isize) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification [ isize::signum ] (a: isize) -> (r: isize)
    ensures r as int == (if a < 0 { -1int } else if a > 0 { 1int } else { 0int });
pub assume_specification<T> [ Option::<T>::or ] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [ Option::<T>::xor ] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (match (a, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None });
pub assume_specification<T, U> [ Option::<T>::zip ] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T, U> [ Option::<T>::and ] (a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None });
pub assume_specification<T> [ Option::<T>::replace ] (a: &mut Option<T>, b: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T> [ bool::then_some ] (a: bool, b: T) -> (r: Option<T>)
    ensures r == (if a { Some(b) } else { None });
pub assume_specification<T, E> [ Option::<core::result::Result<T, E>>::transpose ] (a: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == (match a { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<T, A: core::alloc::Allocator> [ Vec::<T, A>::reserve_exact ] (v: &mut Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;
pub assume_specification<T> [ <[T]>::reverse ] (v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
pub assume_specification<T> [ <[T]>::rotate_left ] (v: &mut [T], k: usize)
    requires k <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(k as int, old(v)@.len() as int) + old(v)@.subrange(0, k as int);
pub assume_specification<T> [ <[T]>::rotate_right ] (v: &mut [T], k: usize)
    requires k <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(old(v)@.len() - k, old(v)@.len() as int) + old(v)@.subrange(0, old(v)@.len() - k);
pub assume_specification<T: Clone> [ <[T]>::fill ] (v: &mut [T], x: T)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> clone_of(x, #[trigger] final(v)@[i]) || final(v)@[i] == x;
