@file_props C12

@fn Matrix::elementwise_add
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Add<R>>::add, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(*self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> add_cc(self.data@[i], peer(*self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(*self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: &L, $c1: &R| -> (u: U) ensures add_cc(*$c0, *$c1, u)

@fn Matrix::elementwise_add_consume_self
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Add<R>>::add, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> add_c(self.data@[i], peer(self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: L, $c1: &R| -> (u: U) ensures add_c($c0, *$c1, u)

@fn Matrix::elementwise_add_assign
@props C12,C01,C02,C09,C07
@requires
old(self).coh() && $0.coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && conf(*old(self), *$0) && zm.order == old(self).order && zm.shape == old(self).shape && zm.data@.len() == old(self).data@.len()
        && forall|i: int| 0 <= i < zm.data@.len() ==> add_assign_c(old(self).data@[i], peer(*old(self), *$0, i), #[trigger] zm.data@[i]),
    Err(e) => *final(self) == *old(self) && !conf(*old(self), *$0) && e == Error::ShapeNotConformable,
}, //@C12,C01,C09,C07
@closure 0
|$c0: &mut L, $c1: &R| ensures add_assign_c(*old($c0), *$c1, *final($c0))

@fn <Matrix<L> as Add<Matrix<R>>>::add
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Add<R>>::add, (x, y)),
@panics_when !conf($0, $1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape($0, $1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> add_c($0.data@[i], peer($0, $1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <Matrix<L> as Add<&Matrix<R>>>::add
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Add<R>>::add, (x, y)),
@panics_when !conf($0, *$1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape($0, *$1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> add_c($0.data@[i], peer($0, *$1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <&Matrix<L> as Add<Matrix<R>>>::add
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Add<R>>::add, (x, y)),
@panics_when !conf(*$0, $1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape(*$0, $1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> add_cc($0.data@[i], peer(*$0, $1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <&Matrix<L> as Add<&Matrix<R>>>::add
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Add<R>>::add, (x, y)),
@panics_when !conf(*$0, *$1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape(*$0, *$1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> add_cc($0.data@[i], peer(*$0, *$1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <Matrix<L> as AddAssign<Matrix<R>>>::add_assign
@props C12,C01,C07
@requires
old($0).coh() && $1.coh(),
@panics_when !conf(*old($0), $1)
@ensures
conf(*old($0), $1) && final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C12,C01,C07
forall|i: int| 0 <= i < final($0).data@.len() ==> add_assign_c(old($0).data@[i], peer(*old($0), $1, i), #[trigger] final($0).data@[i]), //@C12,C07

@fn <Matrix<L> as AddAssign<&Matrix<R>>>::add_assign
@props C12,C01,C07
@requires
old($0).coh() && $1.coh(),
@panics_when !conf(*old($0), *$1)
@ensures
conf(*old($0), *$1) && final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C12,C01,C07
forall|i: int| 0 <= i < final($0).data@.len() ==> add_assign_c(old($0).data@[i], peer(*old($0), *$1, i), #[trigger] final($0).data@[i]), //@C12,C07

@fn Matrix::elementwise_sub
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Sub<R>>::sub, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(*self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> sub_cc(self.data@[i], peer(*self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(*self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: &L, $c1: &R| -> (u: U) ensures sub_cc(*$c0, *$c1, u)

@fn Matrix::elementwise_sub_consume_self
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Sub<R>>::sub, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> sub_c(self.data@[i], peer(self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: L, $c1: &R| -> (u: U) ensures sub_c($c0, *$c1, u)

@fn Matrix::elementwise_sub_assign
@props C12,C01,C02,C09,C07
@requires
old(self).coh() && $0.coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && conf(*old(self), *$0) && zm.order == old(self).order && zm.shape == old(self).shape && zm.data@.len() == old(self).data@.len()
        && forall|i: int| 0 <= i < zm.data@.len() ==> sub_assign_c(old(self).data@[i], peer(*old(self), *$0, i), #[trigger] zm.data@[i]),
    Err(e) => *final(self) == *old(self) && !conf(*old(self), *$0) && e == Error::ShapeNotConformable,
}, //@C12,C01,C09,C07
@closure 0
|$c0: &mut L, $c1: &R| ensures sub_assign_c(*old($c0), *$c1, *final($c0))

@fn <Matrix<L> as Sub<Matrix<R>>>::sub
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Sub<R>>::sub, (x, y)),
@panics_when !conf($0, $1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape($0, $1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> sub_c($0.data@[i], peer($0, $1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <Matrix<L> as Sub<&Matrix<R>>>::sub
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Sub<R>>::sub, (x, y)),
@panics_when !conf($0, *$1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape($0, *$1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> sub_c($0.data@[i], peer($0, *$1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <&Matrix<L> as Sub<Matrix<R>>>::sub
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Sub<R>>::sub, (x, y)),
@panics_when !conf(*$0, $1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape(*$0, $1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> sub_cc($0.data@[i], peer(*$0, $1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <&Matrix<L> as Sub<&Matrix<R>>>::sub
@props C12,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Sub<R>>::sub, (x, y)),
@panics_when !conf(*$0, *$1) || !fits::<U>($0.data@.len() as int)
@ensures
ew_shape(*$0, *$1, ret), //@C12,C01,C07
forall|i: int| 0 <= i < ret.data@.len() ==> sub_cc($0.data@[i], peer(*$0, *$1, i), #[trigger] ret.data@[i]), //@C12,C07

@fn <Matrix<L> as SubAssign<Matrix<R>>>::sub_assign
@props C12,C01,C07
@requires
old($0).coh() && $1.coh(),
@panics_when !conf(*old($0), $1)
@ensures
conf(*old($0), $1) && final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C12,C01,C07
forall|i: int| 0 <= i < final($0).data@.len() ==> sub_assign_c(old($0).data@[i], peer(*old($0), $1, i), #[trigger] final($0).data@[i]), //@C12,C07

@fn <Matrix<L> as SubAssign<&Matrix<R>>>::sub_assign
@props C12,C01,C07
@requires
old($0).coh() && $1.coh(),
@panics_when !conf(*old($0), *$1)
@ensures
conf(*old($0), *$1) && final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C12,C01,C07
forall|i: int| 0 <= i < final($0).data@.len() ==> sub_assign_c(old($0).data@[i], peer(*old($0), *$1, i), #[trigger] final($0).data@[i]), //@C12,C07

@fn Matrix::elementwise_mul
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(*self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> mul_cc(self.data@[i], peer(*self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(*self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: &L, $c1: &R| -> (u: U) ensures mul_cc(*$c0, *$c1, u)

@fn Matrix::elementwise_mul_consume_self
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> mul_c(self.data@[i], peer(self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: L, $c1: &R| -> (u: U) ensures mul_c($c0, *$c1, u)

@fn Matrix::elementwise_mul_assign
@props C12,C01,C02,C09,C07
@requires
old(self).coh() && $0.coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && conf(*old(self), *$0) && zm.order == old(self).order && zm.shape == old(self).shape && zm.data@.len() == old(self).data@.len()
        && forall|i: int| 0 <= i < zm.data@.len() ==> mul_assign_c(old(self).data@[i], peer(*old(self), *$0, i), #[trigger] zm.data@[i]),
    Err(e) => *final(self) == *old(self) && !conf(*old(self), *$0) && e == Error::ShapeNotConformable,
}, //@C12,C01,C09,C07
@closure 0
|$c0: &mut L, $c1: &R| ensures mul_assign_c(*old($c0), *$c1, *final($c0))

@fn Matrix::elementwise_div
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Div<R>>::div, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(*self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> div_cc(self.data@[i], peer(*self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(*self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: &L, $c1: &R| -> (u: U) ensures div_cc(*$c0, *$c1, u)

@fn Matrix::elementwise_div_consume_self
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Div<R>>::div, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> div_c(self.data@[i], peer(self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: L, $c1: &R| -> (u: U) ensures div_c($c0, *$c1, u)

@fn Matrix::elementwise_div_assign
@props C12,C01,C02,C09,C07
@requires
old(self).coh() && $0.coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && conf(*old(self), *$0) && zm.order == old(self).order && zm.shape == old(self).shape && zm.data@.len() == old(self).data@.len()
        && forall|i: int| 0 <= i < zm.data@.len() ==> div_assign_c(old(self).data@[i], peer(*old(self), *$0, i), #[trigger] zm.data@[i]),
    Err(e) => *final(self) == *old(self) && !conf(*old(self), *$0) && e == Error::ShapeNotConformable,
}, //@C12,C01,C09,C07
@closure 0
|$c0: &mut L, $c1: &R| ensures div_assign_c(*old($c0), *$c1, *final($c0))

@fn Matrix::elementwise_rem
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Rem<R>>::rem, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(*self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> rem_cc(self.data@[i], peer(*self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(*self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: &L, $c1: &R| -> (u: U) ensures rem_cc(*$c0, *$c1, u)

@fn Matrix::elementwise_rem_consume_self
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Rem<R>>::rem, (x, y)),
@ensures
match ret {
    Ok(zm) => ew_shape(self, *$0, zm) && forall|i: int| 0 <= i < zm.data@.len() ==> rem_c(self.data@[i], peer(self, *$0, i), #[trigger] zm.data@[i]),
    Err(e) => ew_err::<L, R, U>(self, *$0, e),
}, //@C12,C08,C01,C07
@closure 0
|$c0: L, $c1: &R| -> (u: U) ensures rem_c($c0, *$c1, u)

@fn Matrix::elementwise_rem_assign
@props C12,C01,C02,C09,C07
@requires
old(self).coh() && $0.coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && conf(*old(self), *$0) && zm.order == old(self).order && zm.shape == old(self).shape && zm.data@.len() == old(self).data@.len()
        && forall|i: int| 0 <= i < zm.data@.len() ==> rem_assign_c(old(self).data@[i], peer(*old(self), *$0, i), #[trigger] zm.data@[i]),
    Err(e) => *final(self) == *old(self) && !conf(*old(self), *$0) && e == Error::ShapeNotConformable,
}, //@C12,C01,C09,C07
@closure 0
|$c0: &mut L, $c1: &R| ensures rem_assign_c(*old($c0), *$c1, *final($c0))

@fn <Matrix<T> as Neg>::neg
@props C01
@requires
$0.coh(),
forall|x: T| #[trigger] call_requires(<T as core::ops::Neg>::neg, (x,)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len() && ret.coh(), //@C01
forall|i: int| 0 <= i < ret.data@.len() ==> neg_of($0.data@[i], #[trigger] ret.data@[i]), //@C01
@closure 0
|$c0: T| -> (u: U) ensures neg_of($c0, u)

@fn <&Matrix<T> as Neg>::neg
@props C01
@requires
$0.coh(),
forall|x: T| #[trigger] call_requires(<T as core::ops::Neg>::neg, (x,)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len() && ret.coh(), //@C01
forall|i: int| 0 <= i < ret.data@.len() ==> neg_c($0.data@[i], #[trigger] ret.data@[i]), //@C01
@closure 0
|$c0: &T| -> (u: U) ensures neg_c(*$c0, u)

@fn dot_product
@props C11
@requires
$0@.len() == $1@.len(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
forall|x: U, y: U| #[trigger] call_requires(<U as core::ops::Add<U>>::add, (x, y)),
@ensures
match ret { Some(u) => dot_of($0@, $1@, $0@.len() as int, u), None => $0@.len() == 0 }, //@C11
@loop 0
invariant
__k0 > 0,
dot_of($0@, $1@, __k0, __out0),

@fn Matrix::multiply
@props C11,C08,C01,C07
@requires
self.coh() && $0.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
forall|x: U, y: U| #[trigger] call_requires(<U as core::ops::Add<U>>::add, (x, y)),
@ensures
match ret {
    Ok(zm) => product_of(self, $0, zm),
    Err(e) => mul_err::<L, R, U>(self, $0, e),
}, //@C11,C08,C01,C07
@entry
let ghost __a = self;
let ghost __b = $0;
let ghost __sh = shape_of(self.order, self.nr() as usize, $0.nc() as usize);
proof { lemma_shape_of_sz(self.order, self.nr() as usize, $0.nc() as usize); assert(self.nr() * $0.nc() == $0.nc() * self.nr()) by (nonlinear_arith); }
@at loop0.pre
proof { lemma_row_slices(__a, __me); lemma_col_slices(__b, rhs); }
@at loop2.pre
proof { lemma_row_slices(__a, __me); lemma_col_slices(__b, rhs); }
@loop 0
invariant
data@.len() == __k0 * ncols,
forall|i: int| 0 <= i < data@.len() ==> dot_of(__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i)), __a.nc(), #[trigger] data@[i]),
@loop 1
invariant
data@.len() == __j0 * ncols + __k1,
forall|i: int| 0 <= i < data@.len() ==> dot_of(__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i)), __a.nc(), #[trigger] data@[i]),
@at loop0.init
proof { assert(0 * ncols == 0) by (nonlinear_arith); }
@at loop0.begin
proof { assert((__j0 + 1) * ncols == __j0 * ncols + ncols) by (nonlinear_arith); }
@at loop1.begin
proof {
    lemma_pos_bound(__j0, __j1, nrows as int, ncols as int);
    lemma_pos_divmod(__j0, __j1, ncols as int);
    vp_touch(vec_lo(row as int, __me.shape.minor as int)); vp_touch(vec_lo(col as int, rhs.shape.minor as int));
}
@loop 2
invariant
data@.len() == __k2 * nrows,
forall|i: int| 0 <= i < data@.len() ==> dot_of(__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i)), __a.nc(), #[trigger] data@[i]),
@loop 3
invariant
data@.len() == __j2 * nrows + __k3,
forall|i: int| 0 <= i < data@.len() ==> dot_of(__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i)), __a.nc(), #[trigger] data@[i]),
@at loop2.init
proof { assert(0 * nrows == 0) by (nonlinear_arith); }
@at loop2.begin
proof { assert((__j2 + 1) * nrows == __j2 * nrows + nrows) by (nonlinear_arith); }
@at loop3.begin
proof {
    lemma_pos_bound(__j2, __j3, ncols as int, nrows as int);
    lemma_pos_divmod(__j2, __j3, nrows as int);
    vp_touch(vec_lo(row as int, __me.shape.minor as int)); vp_touch(vec_lo(col as int, rhs.shape.minor as int));
}

@fn <Matrix<L> as Mul<Matrix<R>>>::mul
@props C11,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
forall|x: U, y: U| #[trigger] call_requires(<U as core::ops::Add<U>>::add, (x, y)),
@panics_when $0.nc() != $1.nr() || $0.nr() * $1.nc() > usize::MAX || !fits::<U>($0.nr() * $1.nc())
@ensures
mul_shape_ok($0, $1, ret), //@C11,C01,C07
product_of($0, $1, ret), //@C11,C07

@fn <Matrix<L> as Mul<&Matrix<R>>>::mul
@props C11,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
forall|x: U, y: U| #[trigger] call_requires(<U as core::ops::Add<U>>::add, (x, y)),
@panics_when $0.nc() != $1.nr() || $0.nr() * $1.nc() > usize::MAX || !fits::<U>($0.nr() * $1.nc())
@ensures
mul_shape_ok($0, *$1, ret), //@C11,C01,C07
exists|zb: Matrix<R>| #[trigger] vp_clone_of_Matrix(*$1, zb) && product_of($0, zb, ret), //@C11,C07

@fn <&Matrix<L> as Mul<Matrix<R>>>::mul
@props C11,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
forall|x: U, y: U| #[trigger] call_requires(<U as core::ops::Add<U>>::add, (x, y)),
@panics_when $0.nc() != $1.nr() || $0.nr() * $1.nc() > usize::MAX || !fits::<U>($0.nr() * $1.nc())
@ensures
mul_shape_ok(*$0, $1, ret), //@C11,C01,C07
exists|za: Matrix<L>| #[trigger] vp_clone_of_Matrix(*$0, za) && product_of(za, $1, ret), //@C11,C07

@fn <&Matrix<L> as Mul<&Matrix<R>>>::mul
@props C11,C01,C07
@requires
$0.coh() && $1.coh(),
forall|x: L, y: R| #[trigger] call_requires(<L as core::ops::Mul<R>>::mul, (x, y)),
forall|x: U, y: U| #[trigger] call_requires(<U as core::ops::Add<U>>::add, (x, y)),
@panics_when $0.nc() != $1.nr() || $0.nr() * $1.nc() > usize::MAX || !fits::<U>($0.nr() * $1.nc())
@ensures
mul_shape_ok(*$0, *$1, ret), //@C11,C01,C07
exists|za: Matrix<L>, zb: Matrix<R>| #[trigger] vp_clone_of_Matrix(*$0, za) && #[trigger] vp_clone_of_Matrix(*$1, zb) && product_of(za, zb, ret), //@C11,C07
