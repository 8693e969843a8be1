@file_props C01

@fn Matrix::check_size
@props C08
@ensures
ret == (if fits::<T>($0 as int) { Ok::<usize, Error>($0) } else { Err(Error::CapacityOverflow) }), //@C08

@fn Matrix::shrink_to_fit
@requires
old(self).coh(),
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == old(self).shape && ret.data@ == old(self).data@, //@C01
@fn Matrix::shrink_to
@requires
old(self).coh(),
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == old(self).shape && ret.data@ == old(self).data@, //@C01

@fn Matrix::clear
@props C01,C02
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == (AxisShape { major: 0, minor: 0 }) && ret.data@.len() == 0, //@C01
ret.coh(), //@C01

@fn Matrix::contains
@ensures
ret ==> exists|i: int| 0 <= i < self.data@.len() && eq_rel(#[trigger] self.data@[i], *$0, true), //@C01,C07
!ret ==> forall|i: int| 0 <= i < self.data@.len() ==> eq_rel(#[trigger] self.data@[i], *$0, false), //@C01,C07

@fn Matrix::reshape
@props C09,C08,C01
@requires
old(self).coh(),
@ensures
match ret { Ok(zm) => *final(self) == *final(zm), Err(_) => *final(self) == *old(self) }, //@C09,C08
exists|sh: Shape| #[trigger] call_ensures(<S as Into<Shape>>::into, ($0,), sh) && (match ret {
    Ok(zm) => sh.nrows * sh.ncols == old(self).data@.len() && zm.shape == shape_of(old(self).order, sh.nrows, sh.ncols) && zm.order == old(self).order && zm.data@ == old(self).data@,
    Err(e) => e == Error::SizeMismatch && sh.nrows * sh.ncols != old(self).data@.len(),
}), //@C09,C08,C01

@fn Matrix::resize
@props C09,C08,C01,C02
@requires
old(self).coh(),
@ensures
match ret { Ok(zm) => *final(self) == *final(zm) && zm.coh(), Err(_) => *final(self) == *old(self) }, //@C09,C08
exists|sh: Shape| #[trigger] call_ensures(<S as Into<Shape>>::into, ($0,), sh) && (match ret {
    Ok(zm) => sh.nrows * sh.ncols <= usize::MAX && fits::<T>(sh.nrows * sh.ncols) && zm.shape == shape_of(old(self).order, sh.nrows, sh.ncols) && zm.order == old(self).order
        && zm.data@.len() == sh.nrows * sh.ncols
        && (forall|i: int| 0 <= i < zm.data@.len() && i < old(self).data@.len() ==> #[trigger] zm.data@[i] == old(self).data@[i])
        && (forall|i: int| old(self).data@.len() <= i < zm.data@.len() ==> default_of(#[trigger] zm.data@[i])),
    Err(e) => if sh.nrows * sh.ncols > usize::MAX { e == Error::SizeOverflow } else { e == Error::CapacityOverflow && !fits::<T>(sh.nrows * sh.ncols) },
}), //@C09,C08,C01
@entry
proof { axiom_vec_fits(self.data); }

@fn Matrix::apply
@props C01,C02,C16
@requires
old(self).coh(),
old($t0).log.len() == 0,
forall|x: &mut T| $0.requires((x,)),
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == old(self).shape && ret.data@.len() == old(self).data@.len(), //@C01,C16
final($t0).log.len() == old(self).data@.len() && forall|i: int| #![trigger final($t0).log[i]] #![trigger ret.data@[i]] 0 <= i < old(self).data@.len() ==> (final($t0).log[i]) == (old(self).data@[i], ret.data@[i]), //@C01,C16
@loop 0
invariant
__s0.len() == old(self).data@.len(),
forall|i: int| 0 <= i < __s0.len() ==> *(#[trigger] __s0[i]) == old(self).data@[i],
__tr0.log.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == (old(self).data@[i], *final(__s0[i])),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); }

@fn Matrix::map
@props C01,C08,C16
@requires
self.coh(),
old($t0).log.len() == 0,
forall|x: T| $0.requires((x,)),
@ensures
match ret {
    Ok(zm) => fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && final($t0).log.len() == self.data@.len()
        && forall|i: int| #![trigger final($t0).log[i]] #![trigger zm.data@[i]] 0 <= i < self.data@.len() ==> final($t0).log[i] == (self.data@[i], zm.data@[i]) && $0.ensures((self.data@[i],), zm.data@[i]),
    Err(e) => e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int),
}, //@C01,C08,C16
@loop 0
invariant
__s0 == self.data@,
__tr0.log.len() == __k0,
__out0@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == (__s0[i], __out0@[i]) && $0.ensures((__s0[i],), __out0@[i]),

@fn Matrix::map_ref
@props C01,C08,C16
@requires
self.coh(),
old($t0).log.len() == 0,
forall|x: &T| $0.requires((x,)),
@ensures
match ret {
    Ok(zm) => fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && final($t0).log.len() == self.data@.len()
        && forall|i: int| #![trigger final($t0).log[i]] #![trigger zm.data@[i]] 0 <= i < self.data@.len() ==> final($t0).log[i] == (&self.data@[i], zm.data@[i]) && $0.ensures((&self.data@[i],), zm.data@[i]),
    Err(e) => e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int),
}, //@C01,C08,C16
@loop 0
invariant
__s0 == refs(self.data@),
__tr0.log.len() == __k0,
__out0@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> #[trigger] __tr0.log[i] == (__s0[i], __out0@[i]) && $0.ensures((__s0[i],), __out0@[i]),

@fn Matrix::transpose
@props C05,C01
@requires
old(self).coh(),
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == old(self).shape.swapped() && ret.coh(), //@C05,C01
transposed_of(old(self).data@, ret.data@, old(self).shape.major as int, old(self).shape.minor as int), //@C05,C01
@entry
let ghost __ma = self.shape.major as int;
let ghost __mi = self.shape.minor as int;
proof {
    axiom_vec_fits(self.data); axiom_size_bool();
    assert(__ma * __mi == __mi * __ma) by (nonlinear_arith);
    if size_of::<T>() == 0 {
        let b = Seq::new(self.data@.len(), |q: int| self.data@[tgt(q, __mi, __ma)]);
        axiom_zst(self.data@, b);
        assert forall|p: int| 0 <= p < self.data@.len() implies self.data@[#[trigger] tgt(p, __ma, __mi)] == self.data@[p] by {
            lemma_tgt(p, __ma, __mi);
            axiom_zst(seq![self.data@[p]], seq![self.data@[tgt(p, __ma, __mi)]]);
            assert(seq![self.data@[p]][0] == seq![self.data@[tgt(p, __ma, __mi)]][0]);
        }
    } else {
        let len = self.data@.len() as int;
        assert(fits::<bool>(len)) by (nonlinear_arith) requires fits::<T>(len), size_of::<T>() >= 1, size_of::<bool>() == 1, len >= 0;
    }
}
let ghost __d0 = self.data@;
@at loop0.post
proof { lemma_tr_done(__d0, self.data@, visited@, __ma, __mi); }
@at loop0.init
proof { lemma_tr_ends(__ma, __mi); assert forall|p: int| 0 <= p < visited@.len() implies (visited@[p] <==> visited@[#[trigger] tgt(p, __ma, __mi)]) by { lemma_tgt(p, __ma, __mi); } }
@loop 0
invariant
tr_outer(__d0, self.data@, visited@, __ma, __mi),
forall|p: int| 0 <= p < __k0 && p < visited@.len() ==> #[trigger] visited@[p] || tgt(p, __ma, __mi) == p,
@at let:current
proof { lemma_tr_start(__d0, self.data@, visited@, index as int, __ma, __mi); }
@loop 1
invariant
tr_inner(__d0, self.data@, visited@, index as int, current as int, __ma, __mi),
forall|p: int| 0 <= p < __j0 && p < visited@.len() ==> #[trigger] visited@[p] || tgt(p, __ma, __mi) == p,
decreases count_false(visited@),
@at loop1.begin
let ghost __v = visited@;
let ghost __d = self.data@;
proof {
    lemma_tgt(current as int, __ma, __mi);
    if visited@[current as int] { lemma_tr_end(__d0, self.data@, visited@, index as int, current as int, __ma, __mi); }
}
@at loop1.end
proof { lemma_tr_step(__d0, __d, __v, index as int, __c, __ma, __mi, self.data@); }
@at let:state
let ghost __c = current as int;
@at loop1.post
proof { lemma_tr_end(__d0, self.data@, visited@, index as int, current as int, __ma, __mi); }

@fn Matrix::switch_order
@props C05,C07
@requires
old(self).coh(),
@ensures
*final(self) == *final(ret),
ret.order == other(old(self).order) && ret.shape == old(self).shape.swapped() && ret.coh(), //@C05,C01,C07
transposed_of(old(self).data@, ret.data@, old(self).shape.major as int, old(self).shape.minor as int), //@C05,C07
@fn Matrix::switch_order_without_rearrangement
@props C05
@requires
old(self).coh(),
@ensures
*final(self) == *final(ret),
ret.order == other(old(self).order) && ret.shape == old(self).shape && ret.data@ == old(self).data@, //@C05,C01
@fn Matrix::set_order
@props C05,C07
@requires
old(self).coh(),
@ensures
*final(self) == *final(ret),
ret.order == $0 && ret.coh(), //@C05,C01,C07
$0 == old(self).order ==> ret.shape == old(self).shape && ret.data@ == old(self).data@, //@C05,C07
$0 != old(self).order ==> ret.shape == old(self).shape.swapped() && transposed_of(old(self).data@, ret.data@, old(self).shape.major as int, old(self).shape.minor as int), //@C05,C07
@fn Matrix::set_order_without_rearrangement
@props C05
@requires
old(self).coh(),
@ensures
*final(self) == *final(ret),
ret.order == $0 && ret.shape == old(self).shape && ret.data@ == old(self).data@, //@C05,C01

@fn Matrix::overwrite
@props C14,C01,C02
@requires
old(self).coh(),
$0.coh(),
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == old(self).shape && ret.coh(), //@C14,C01
overwritten(*old(self), *$0, *ret), //@C14,C01
@entry
let ghost __d0 = self.data@;
let ghost __ma = self.shape.major as int;
let ghost __mi = self.shape.minor as int;
let ghost __ma2 = $0.shape.major as int;
let ghost __mi2 = $0.shape.minor as int;
let ghost __same = self.order == $0.order;
let ghost mut __kk: int = 0;
let ghost mut __mm: int = 0;
@at let:minor
proof { __kk = major as int; __mm = minor as int; }
@at let:minor#1
proof { __kk = major as int; __mm = minor as int; }
@loop 0
invariant
self.order == old(self).order && self.shape == old(self).shape,
ow(__d0, self.data@, $0.data@, __k0, minor as int, __ma, __mi, __mi2, __same),
@at let:i
let ghost __d1 = self.data@;
proof {
    assert(i * __mi + __mi <= __ma * __mi) by (nonlinear_arith) requires i + 1 <= __ma, __mi >= 0;
    assert(i * __mi2 + __mi2 <= __ma2 * __mi2) by (nonlinear_arith) requires i + 1 <= __ma2, __mi2 >= 0;
    assert(i * __mi >= 0 && i * __mi2 >= 0) by (nonlinear_arith) requires i >= 0, __mi >= 0, __mi2 >= 0;
}
@at loop0.end
proof {
    assert forall|b: int| 0 <= b < minor implies clone_of($0.data@[#[trigger] ow_src(i as int, b, __mi2, __same)], self.data@[i * __mi + b]) by {
        assert($0.data@.subrange(i * __mi2, i * __mi2 + minor)[b] == $0.data@[i * __mi2 + b]);
    }
    lemma_ow_step(__d0, __d1, self.data@, $0.data@, i as int, minor as int, __ma, __mi, __mi2, __same);
}
@loop 1
invariant
self.order == old(self).order && self.shape == old(self).shape,
ow(__d0, self.data@, $0.data@, __k1, minor as int, __ma, __mi, __mi2, __same),
@at let:i#1
let ghost __d1 = self.data@;
proof {
    assert(i * __mi + __mi <= __ma * __mi) by (nonlinear_arith) requires i + 1 <= __ma, __mi >= 0;
    assert(i * __mi >= 0) by (nonlinear_arith) requires i >= 0, __mi >= 0;
    lemma_steps(__ma2, __mi2, i as int);
    if __ma2 > 0 { assert(__ma2 * __mi2 >= __mi2) by (nonlinear_arith) requires __ma2 >= 1, __mi2 >= 0; }
}
@loop 2
invariant
__s2.len() == minor,
forall|j: int| 0 <= j < __k2 ==> clone_of($0.data@[#[trigger] ow_src(i as int, j, __mi2, __same)], *final(__s2[j].0)),
@at loop2.init
proof {
    assert forall|j: int| 0 <= j < minor implies *(#[trigger] __s2[j]).1 == $0.data@[ow_src(i as int, j, __mi2, __same)] by {
        assert(j * __mi2 + i < __ma2 * __mi2 && 0 <= j * __mi2) by (nonlinear_arith) requires 0 <= j < __ma2, 0 <= i < __mi2;
    }
}
@at loop2.begin
proof { assert(__x2 == __s2[__j2]); assert(ow_src(i as int, __j2, __mi2, __same) == ow_src(i as int, __j2, __mi2, __same)); }
@at loop2.post
proof {
    assert forall|b: int| 0 <= b < minor implies clone_of($0.data@[#[trigger] ow_src(i as int, b, __mi2, __same)], self.data@[i * __mi + b]) by {
        assert(__s2[b] == __s2[b]);
        assert(self.data@[i * __mi + b] == *final(__s2[b].0));
    }
}
@at loop1.end
proof {
    lemma_ow_step(__d0, __d1, self.data@, $0.data@, i as int, minor as int, __ma, __mi, __mi2, __same);
}
@exit
proof { lemma_ow_done(*old(self), *$0, *self, __kk, __mm); }
