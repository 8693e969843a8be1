@file_props C12

@fn Matrix::is_square
@props C01
@ensures
ret == (self.nr() == self.nc()),
@fn Matrix::ensure_square
@props C01
@ensures
match ret { Ok(zm) => *zm == *self && self.nr() == self.nc(), Err(e) => e == Error::SquareMatrixRequired && self.nr() != self.nc() },
@fn Matrix::is_elementwise_operation_conformable
@props C12,C07
@ensures
ret == conf(*self, *$0), //@C12,C07
@fn Matrix::is_multiplication_like_operation_conformable
@props C11,C07
@ensures
ret == (self.nc() == $0.nr()), //@C11,C07
@fn Matrix::ensure_elementwise_operation_conformable
@props C12,C07
@ensures
match ret { Ok(zm) => *zm == *self && conf(*self, *$0), Err(e) => e == Error::ShapeNotConformable && !conf(*self, *$0) }, //@C12,C07
@fn Matrix::ensure_multiplication_like_operation_conformable
@props C11,C07
@ensures
match ret { Ok(zm) => *zm == *self && self.nc() == $0.nr(), Err(e) => e == Error::ShapeNotConformable && self.nc() != $0.nr() }, //@C11,C07

@fn Matrix::elementwise_operation
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
old($t0).log.len() == 0,
forall|x: &'a L, y: &'b R| $1.requires((x, y)),
@ensures
match ret {
    Ok(zm) => conf(*self, *$0) && fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && final($t0).log.len() == self.data@.len()
        && forall|i: int| #![trigger final($t0).log[i]] #![trigger zm.data@[i]] 0 <= i < self.data@.len() ==> final($t0).log[i] == ((&self.data@[i], &peer(*self, *$0, i)), zm.data@[i]) && $1.ensures(final($t0).log[i].0, zm.data@[i]),
    Err(e) => final($t0).log.len() == 0 && (if !conf(*self, *$0) { e == Error::ShapeNotConformable } else { e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int) }),
}, //@C12,C08,C01,C07
@entry
let ghost __sd = self.data@;
let ghost __ss = *self;
proof { axiom_vec_fits(self.data); if conf(*self, *$0) { lemma_conf_len(*self, *$0); } }
@loop 0
invariant
__s0.len() == __sd.len(),
forall|i: int| 0 <= i < __s0.len() ==> #[trigger] __s0[i] == (&__sd[i], &$0.data@[i]),
__tr0.log.len() == __k0,
__out0@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == ((&__sd[i], &peer(__ss, *$0, i)), __out0@[i]) && $1.ensures(__tr0.log[i].0, __out0@[i]),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); lemma_peer(__ss, *$0, __j0); }
@loop 1
invariant
__s1.len() == __sd.len(),
forall|i: int| 0 <= i < __s1.len() ==> #[trigger] __s1[i] == (i as usize, &__sd[i]),
__tr0.log.len() == __k1,
__out1@.len() == __k1,
forall|i: int| 0 <= i < __k1 ==> #[trigger] __tr0.log[i] == ((&__sd[i], &peer(__ss, *$0, i)), __out1@[i]) && $1.ensures(__tr0.log[i].0, __out1@[i]),
@at loop1.begin
proof { assert(__x1 == __s1[__j1]); lemma_peer(__ss, *$0, __j1); }

@fn Matrix::elementwise_operation_consume_self
@props C12,C08,C01,C07
@requires
self.coh() && $0.coh(),
old($t0).log.len() == 0,
forall|x: L, y: &'a R| $1.requires((x, y)),
@ensures
match ret {
    Ok(zm) => conf(self, *$0) && fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && final($t0).log.len() == self.data@.len()
        && forall|i: int| #![trigger final($t0).log[i]] #![trigger zm.data@[i]] 0 <= i < self.data@.len() ==> final($t0).log[i] == ((self.data@[i], &peer(self, *$0, i)), zm.data@[i]) && $1.ensures(final($t0).log[i].0, zm.data@[i]),
    Err(e) => final($t0).log.len() == 0 && (if !conf(self, *$0) { e == Error::ShapeNotConformable } else { e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int) }),
}, //@C12,C08,C01,C07
@entry
let ghost __sd = self.data@;
let ghost __ss = self;
proof { axiom_vec_fits(self.data); if conf(self, *$0) { lemma_conf_len(self, *$0); } }
@loop 0
invariant
__s0.len() == __sd.len(),
forall|i: int| 0 <= i < __s0.len() ==> #[trigger] __s0[i] == (__sd[i], &$0.data@[i]),
__tr0.log.len() == __k0,
__out0@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == ((__sd[i], &peer(__ss, *$0, i)), __out0@[i]) && $1.ensures(__tr0.log[i].0, __out0@[i]),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); lemma_peer(__ss, *$0, __j0); }
@loop 1
invariant
__s1.len() == __sd.len(),
forall|i: int| 0 <= i < __s1.len() ==> #[trigger] __s1[i] == (i as usize, __sd[i]),
__tr0.log.len() == __k1,
__out1@.len() == __k1,
forall|i: int| 0 <= i < __k1 ==> #[trigger] __tr0.log[i] == ((__sd[i], &peer(__ss, *$0, i)), __out1@[i]) && $1.ensures(__tr0.log[i].0, __out1@[i]),
@at loop1.begin
proof { assert(__x1 == __s1[__j1]); lemma_peer(__ss, *$0, __j1); }

@fn Matrix::elementwise_operation_assign
@props C12,C01,C02,C09,C07
@requires
old(self).coh() && $0.coh(),
old($t0).log.len() == 0,
forall|x: &mut L, y: &'a R| $1.requires((x, y)),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && conf(*old(self), *$0) && zm.order == old(self).order && zm.shape == old(self).shape && zm.data@.len() == old(self).data@.len()
        && final($t0).log.len() == old(self).data@.len()
        && forall|i: int| #![trigger final($t0).log[i]] #![trigger zm.data@[i]] 0 <= i < old(self).data@.len() ==> final($t0).log[i] == ((old(self).data@[i], &peer(*old(self), *$0, i)), zm.data@[i]) && mut2($1, old(self).data@[i], final($t0).log[i].0.1, zm.data@[i]),
    Err(e) => *final(self) == *old(self) && final($t0).log.len() == 0 && !conf(*old(self), *$0) && e == Error::ShapeNotConformable,
}, //@C12,C01,C09,C07
@entry
let ghost __ss = *self;
proof { axiom_vec_fits(self.data); if conf(*self, *$0) { lemma_conf_len(*self, *$0); } }
@loop 0
invariant
__s0.len() == __ss.data@.len(),
forall|i: int| 0 <= i < __s0.len() ==> *(#[trigger] __s0[i]).0 == __ss.data@[i] && __s0[i].1 == &$0.data@[i],
__tr0.log.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == ((__ss.data@[i], &peer(__ss, *$0, i)), *final(__s0[i].0)) && mut2($1, __ss.data@[i], __tr0.log[i].0.1, *final(__s0[i].0)),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); lemma_peer(__ss, *$0, __j0); }
@at loop0.post
proof { assert forall|i: int| 0 <= i < __ss.data@.len() implies #[trigger] __tr0.log[i] == ((__ss.data@[i], &peer(__ss, *$0, i)), self.data@[i]) && mut2($1, __ss.data@[i], __tr0.log[i].0.1, self.data@[i]) by { assert(__s0[i].0 == __s0[i].0); assert(self.data@[i] == *final(__s0[i].0)); } }
@at loop1.post
proof { assert forall|i: int| 0 <= i < __ss.data@.len() implies #[trigger] __tr0.log[i] == ((__ss.data@[i], &peer(__ss, *$0, i)), self.data@[i]) && mut2($1, __ss.data@[i], __tr0.log[i].0.1, self.data@[i]) by { assert(__s1[i].1 == __s1[i].1); assert(self.data@[i] == *final(__s1[i].1)); } }
@loop 1
invariant
self.shape == __ss.shape && self.order == __ss.order,
__s1.len() == __ss.data@.len(),
forall|i: int| 0 <= i < __s1.len() ==> *(#[trigger] __s1[i]).1 == __ss.data@[i] && __s1[i].0 == i,
__tr0.log.len() == __k1,
forall|i: int| 0 <= i < __k1 ==> #[trigger] __tr0.log[i] == ((__ss.data@[i], &peer(__ss, *$0, i)), *final(__s1[i].1)) && mut2($1, __ss.data@[i], __tr0.log[i].0.1, *final(__s1[i].1)),
@at loop1.begin
proof { assert(__x1 == __s1[__j1]); lemma_peer(__ss, *$0, __j1); }

@fn Matrix::scalar_operation
@props C18,C08,C01
@requires
self.coh(),
old($t0).log.len() == 0,
forall|x: &'a T, y: &'b S| $1.requires((x, y)),
@ensures
match ret {
    Ok(zm) => fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && final($t0).log.len() == self.data@.len()
        && forall|i: int| #![trigger final($t0).log[i]] #![trigger zm.data@[i]] 0 <= i < self.data@.len() ==> final($t0).log[i] == ((&self.data@[i], $0), zm.data@[i]) && $1.ensures(final($t0).log[i].0, zm.data@[i]),
    Err(e) => final($t0).log.len() == 0 && e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int),
}, //@C18,C08,C01
@entry
let ghost __sd = self.data@;
@loop 0
invariant
__s0 == refs(__sd),
__tr0.log.len() == __k0,
__out0@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == ((&__sd[i], $0), __out0@[i]) && $1.ensures(__tr0.log[i].0, __out0@[i]),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); }

@fn Matrix::scalar_operation_consume_self
@props C18,C08,C01
@requires
self.coh(),
old($t0).log.len() == 0,
forall|x: T, y: &'a S| $1.requires((x, y)),
@ensures
match ret {
    Ok(zm) => fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && final($t0).log.len() == self.data@.len()
        && forall|i: int| #![trigger final($t0).log[i]] #![trigger zm.data@[i]] 0 <= i < self.data@.len() ==> final($t0).log[i] == ((self.data@[i], $0), zm.data@[i]) && $1.ensures(final($t0).log[i].0, zm.data@[i]),
    Err(e) => final($t0).log.len() == 0 && e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int),
}, //@C18,C08,C01
@entry
let ghost __sd = self.data@;
@loop 0
invariant
__s0 == __sd,
__tr0.log.len() == __k0,
__out0@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == ((__sd[i], $0), __out0@[i]) && $1.ensures(__tr0.log[i].0, __out0@[i]),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); }

@fn Matrix::scalar_operation_assign
@props C18,C01,C02
@requires
old(self).coh(),
old($t0).log.len() == 0,
forall|x: &mut T, y: &'a S| $1.requires((x, y)),
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == old(self).shape && ret.data@.len() == old(self).data@.len(), //@C18,C01
final($t0).log.len() == old(self).data@.len() && forall|i: int| #![trigger final($t0).log[i]] #![trigger ret.data@[i]] 0 <= i < old(self).data@.len() ==> final($t0).log[i] == ((old(self).data@[i], $0), ret.data@[i]) && mut2($1, old(self).data@[i], $0, ret.data@[i]), //@C18,C01
@entry
let ghost __ss = *self;
@loop 0
invariant
__s0.len() == __ss.data@.len(),
forall|i: int| 0 <= i < __s0.len() ==> *(#[trigger] __s0[i]) == __ss.data@[i],
__tr0.log.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == ((__ss.data@[i], $0), *final(__s0[i])) && mut2($1, __ss.data@[i], $0, *final(__s0[i])),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); }

@fn Matrix::get_nth_major_axis_vector
@props C11
@requires
$0 < self.shape.major && self.coh(),
@ensures
ret@ == self.data@.subrange($0 * self.shape.minor, $0 * self.shape.minor + self.shape.minor), //@C11
@entry
proof { assert(0 <= $0 * self.shape.minor && $0 * self.shape.minor + self.shape.minor <= self.shape.major * self.shape.minor) by (nonlinear_arith) requires 0 <= $0, $0 + 1 <= self.shape.major, self.shape.minor >= 0; }

@fn Matrix::multiplication_like_operation
@props C11,C08,C01,C07
@requires
self.coh() && $0.coh(),
old($t0).log.len() == 0,
forall|x: &[L], y: &[R]| $1.requires((x, y)),
@ensures
match ret {
    Ok(zm) => mul_shape_ok(self, $0, zm)
        && (self.nc() == 0 ==> final($t0).log.len() == 0 && forall|i: int| 0 <= i < zm.data@.len() ==> default_of(#[trigger] zm.data@[i]))
        && (self.nc() > 0 ==> final($t0).log.len() == zm.data@.len() && forall|i: int| 0 <= i < zm.data@.len() ==> final($t0).log[i] == ((self.row_seq(zm.row_of(i)), $0.col_seq(zm.col_of(i))), zm.data@[i])),
    Err(e) => final($t0).log.len() == 0 && mul_err::<L, R, U>(self, $0, e),
}, //@C11,C08,C01,C07
@entry
let ghost __a = self;
let ghost __b = $0;
let ghost __sh = shape_of(self.order, self.nr() as usize, $0.nc() as usize);
proof { lemma_shape_of_sz(self.order, self.nr() as usize, $0.nc() as usize); assert(self.nr() * $0.nc() == $0.nc() * self.nr()) by (nonlinear_arith); }
@at loop0.pre
proof { lemma_row_slices(__a, __me); lemma_col_slices(__b, rhs); }
@at loop2.pre
proof { lemma_row_slices(__a, __me); lemma_col_slices(__b, rhs); }
@loop 0
invariant
data@.len() == __k0 * ncols,
__tr0.log.len() == data@.len(),
forall|i: int| 0 <= i < data@.len() ==> #[trigger] __tr0.log[i] == ((__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i))), data@[i]),
@loop 1
invariant
data@.len() == __j0 * ncols + __k1,
__tr0.log.len() == data@.len(),
forall|i: int| 0 <= i < data@.len() ==> #[trigger] __tr0.log[i] == ((__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i))), data@[i]),
@at loop0.init
proof { assert(0 * ncols == 0) by (nonlinear_arith); }
@at loop0.begin
proof { assert((__j0 + 1) * ncols == __j0 * ncols + ncols) by (nonlinear_arith); }
@at loop1.begin
proof {
    lemma_pos_bound(__j0, __j1, nrows as int, ncols as int);
    lemma_pos_divmod(__j0, __j1, ncols as int);
    vp_touch(vec_lo(row as int, __me.shape.minor as int)); vp_touch(vec_lo(col as int, rhs.shape.minor as int));
}
@loop 2
invariant
data@.len() == __k2 * nrows,
__tr0.log.len() == data@.len(),
forall|i: int| 0 <= i < data@.len() ==> #[trigger] __tr0.log[i] == ((__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i))), data@[i]),
@loop 3
invariant
data@.len() == __j2 * nrows + __k3,
__tr0.log.len() == data@.len(),
forall|i: int| 0 <= i < data@.len() ==> #[trigger] __tr0.log[i] == ((__a.row_seq(row_at(order, shape, i)), __b.col_seq(col_at(order, shape, i))), data@[i]),
@at loop2.init
proof { assert(0 * nrows == 0) by (nonlinear_arith); }
@at loop2.begin
proof { assert((__j2 + 1) * nrows == __j2 * nrows + nrows) by (nonlinear_arith); }
@at loop3.begin
proof {
    lemma_pos_bound(__j2, __j3, ncols as int, nrows as int);
    lemma_pos_divmod(__j2, __j3, nrows as int);
    vp_touch(vec_lo(row as int, __me.shape.minor as int)); vp_touch(vec_lo(col as int, rhs.shape.minor as int));
}
