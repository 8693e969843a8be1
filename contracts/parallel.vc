@file_props C16,C01
@fn Matrix::par_apply
@props C16,C01,C02
@requires
old(self).coh(),
old($t0).log.len() == 0,
forall|x: &mut T| $0.requires((x,)),
@ensures
*final(self) == *final(ret),
ret.order == old(self).order && ret.shape == old(self).shape && ret.data@.len() == old(self).data@.len(),
forall|i: int| 0 <= i < ret.data@.len() ==> mut1($0, old(self).data@[i], #[trigger] ret.data@[i]),
logged(final($t0).log, call_log(old(self).data@, ret.data@)),

@fn Matrix::par_map
@props C16,C01,C08
@requires
self.coh(),
old($t0).log.len() == 0,
forall|x: T| $0.requires((x,)),
@ensures
match ret {
    Ok(zm) => fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && (forall|i: int| 0 <= i < self.data@.len() ==> $0.ensures((self.data@[i],), #[trigger] zm.data@[i]))
        && logged(final($t0).log, call_log(self.data@, zm.data@)),
    Err(e) => e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int) && final($t0).log.len() == 0,
}, //@C16,C01,C08
@fn Matrix::par_map_ref
@props C16,C01,C08
@requires
self.coh(),
old($t0).log.len() == 0,
forall|x: &T| $0.requires((x,)),
@ensures
match ret {
    Ok(zm) => fits::<U>(self.data@.len() as int) && zm.order == self.order && zm.shape == self.shape && zm.data@.len() == self.data@.len()
        && (forall|i: int| 0 <= i < self.data@.len() ==> $0.ensures((&self.data@[i],), #[trigger] zm.data@[i]))
        && logged(final($t0).log, call_log(refs(self.data@), zm.data@)),
    Err(e) => e == Error::CapacityOverflow && !fits::<U>(self.data@.len() as int) && final($t0).log.len() == 0,
}, //@C16,C01,C08

@fn Matrix::par_iter_elements
@ensures
ret@ == refs(self.data@),
@fn Matrix::par_iter_elements_mut
@ensures
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret@.len() == old(self).data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> *(#[trigger] ret@[i]) == old(self).data@[i] && *final(ret@[i]) == final(self).data@[i],
@fn Matrix::into_par_iter_elements
@ensures
ret@ == self.data@,

@fn Matrix::par_iter_elements_with_index
@props C16,C01,C15
@requires
self.coh(),
@ensures
ret@.len() == self.data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0.row == self.row_of(i) && ret@[i].0.col == self.col_of(i) && ret@[i].1 == &self.data@[i],
@closure 0
|$c0: (usize, &T)| -> (zr: (Index, &T)) requires self.shape.minor > 0 ensures zr.0.row == self.row_of($c0.0 as int) && zr.0.col == self.col_of($c0.0 as int) && zr.1 == $c0.1
@entry
proof { lemma_sz_zero(self.shape); }
@fn Matrix::par_iter_elements_mut_with_index
@props C16,C01,C15
@requires
old(self).coh(),
@ensures
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret@.len() == old(self).data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0.row == old(self).row_of(i) && ret@[i].0.col == old(self).col_of(i) && *ret@[i].1 == old(self).data@[i] && *final(ret@[i].1) == final(self).data@[i],
@closure 0
|$c0: (usize, &mut T)| -> (zr: (Index, &mut T)) requires self.shape.minor > 0 ensures zr.0.row == self.row_of($c0.0 as int) && zr.0.col == self.col_of($c0.0 as int) && *zr.1 == *old($c0.1) && *final(zr.1) == *final($c0.1)
@entry
proof { lemma_sz_zero(self.shape); }
@fn Matrix::into_par_iter_elements_with_index
@props C16,C01,C15
@requires
self.coh(),
@ensures
ret@.len() == self.data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0.row == self.row_of(i) && ret@[i].0.col == self.col_of(i) && ret@[i].1 == self.data@[i],
@closure 0
|$c0: (usize, T)| -> (zr: (Index, T)) requires self.shape.minor > 0 ensures zr.0.row == self.row_of($c0.0 as int) && zr.0.col == self.col_of($c0.0 as int) && zr.1 == $c0.1
@entry
proof { lemma_sz_zero(self.shape); }
