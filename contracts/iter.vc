@file_props C03,C06
@fn Matrix::iter_nth_major_axis_vector_unchecked
@requires
self.coh() && $0 < self.shape.major, //@C03,C06
@ensures
ret@.len() == self.shape.minor,
forall|j: int| 0 <= j < self.shape.minor ==> #[trigger] ret@[j] == &self.data@[$0 * self.shape.minor + j],
@entry
proof { lemma_nth_major(self.shape, $0 as int); }

@fn Matrix::iter_nth_minor_axis_vector_unchecked
@requires
self.coh() && $0 < self.shape.minor, //@C03,C06
@ensures
ret@.len() == self.shape.major,
forall|j: int| 0 <= j < self.shape.major ==> #[trigger] ret@[j] == &self.data@[j * self.shape.minor + $0],
@entry
proof { lemma_nth_minor(self.shape, $0 as int); }

@fn Matrix::iter_nth_major_axis_vector_unchecked_mut
@requires
old(self).coh() && $0 < old(self).shape.major, //@C03,C06
@ensures
ret@.len() == old(self).shape.minor,
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
forall|j: int| 0 <= j < old(self).shape.minor ==> *(#[trigger] ret@[j]) == old(self).data@[$0 * old(self).shape.minor + j] && *final(ret@[j]) == final(self).data@[$0 * old(self).shape.minor + j],
forall|i: int| 0 <= i < old(self).data@.len() && i / (old(self).shape.minor as int) != $0 ==> #[trigger] final(self).data@[i] == old(self).data@[i],
@entry
proof { lemma_nth_major(self.shape, $0 as int); }

@fn Matrix::iter_nth_minor_axis_vector_unchecked_mut
@requires
old(self).coh() && $0 < old(self).shape.minor, //@C03,C06
@ensures
ret@.len() == old(self).shape.major,
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
forall|j: int| 0 <= j < old(self).shape.major ==> *(#[trigger] ret@[j]) == old(self).data@[j * old(self).shape.minor + $0] && *final(ret@[j]) == final(self).data@[j * old(self).shape.minor + $0],
forall|i: int| 0 <= i < old(self).data@.len() && i % (old(self).shape.minor as int) != $0 ==> #[trigger] final(self).data@[i] == old(self).data@[i],
@entry
proof { lemma_nth_minor(self.shape, $0 as int); }

@fn Matrix::iter_nth_major_axis_vector
@requires
self.coh(),
@ensures
ret is Ok <==> $0 < self.shape.major,
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds,
ret is Ok ==> ret->Ok_0@.len() == self.shape.minor,
ret is Ok ==> forall|j: int| 0 <= j < self.shape.minor ==> #[trigger] ret->Ok_0@[j] == &self.data@[$0 * self.shape.minor + j],

@fn Matrix::iter_nth_minor_axis_vector
@requires
self.coh(),
@ensures
ret is Ok <==> $0 < self.shape.minor,
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds,
ret is Ok ==> ret->Ok_0@.len() == self.shape.major,
ret is Ok ==> forall|j: int| 0 <= j < self.shape.major ==> #[trigger] ret->Ok_0@[j] == &self.data@[j * self.shape.minor + $0],

@fn Matrix::iter_nth_major_axis_vector_mut
@requires
old(self).coh(),
@ensures
ret is Ok <==> $0 < old(self).shape.major,
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds && *final(self) == *old(self),
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret is Ok ==> ret->Ok_0@.len() == old(self).shape.minor,
ret is Ok ==> forall|j: int| 0 <= j < old(self).shape.minor ==> *(#[trigger] ret->Ok_0@[j]) == old(self).data@[$0 * old(self).shape.minor + j] && *final(ret->Ok_0@[j]) == final(self).data@[$0 * old(self).shape.minor + j],
ret is Ok ==> forall|i: int| 0 <= i < old(self).data@.len() && i / (old(self).shape.minor as int) != $0 ==> #[trigger] final(self).data@[i] == old(self).data@[i],

@fn Matrix::iter_nth_minor_axis_vector_mut
@requires
old(self).coh(),
@ensures
ret is Ok <==> $0 < old(self).shape.minor,
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds && *final(self) == *old(self),
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret is Ok ==> ret->Ok_0@.len() == old(self).shape.major,
ret is Ok ==> forall|j: int| 0 <= j < old(self).shape.major ==> *(#[trigger] ret->Ok_0@[j]) == old(self).data@[j * old(self).shape.minor + $0] && *final(ret->Ok_0@[j]) == final(self).data@[j * old(self).shape.minor + $0],
ret is Ok ==> forall|i: int| 0 <= i < old(self).data@.len() && i % (old(self).shape.minor as int) != $0 ==> #[trigger] final(self).data@[i] == old(self).data@[i],

@fn Matrix::iter_nth_row
@requires
self.coh(),
@ensures
ret is Ok <==> $0 < self.nr(),
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds,
ret is Ok ==> ret->Ok_0@ =~= refs(self.row_seq($0 as int)),
@fn Matrix::iter_nth_col
@requires
self.coh(),
@ensures
ret is Ok <==> $0 < self.nc(),
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds,
ret is Ok ==> ret->Ok_0@ =~= refs(self.col_seq($0 as int)),
@fn Matrix::iter_nth_row_mut
@requires
old(self).coh(),
@ensures
ret is Ok <==> $0 < old(self).nr(),
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds && *final(self) == *old(self),
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret is Ok ==> ret->Ok_0@.len() == old(self).nc(),
ret is Ok ==> forall|j: int| 0 <= j < old(self).nc() ==> *(#[trigger] ret->Ok_0@[j]) == old(self).at($0 as int, j) && *final(ret->Ok_0@[j]) == final(self).at($0 as int, j),
ret is Ok ==> forall|i: int| 0 <= i < old(self).data@.len() && old(self).row_of(i) != $0 ==> #[trigger] final(self).data@[i] == old(self).data@[i],
@fn Matrix::iter_nth_col_mut
@requires
old(self).coh(),
@ensures
ret is Ok <==> $0 < old(self).nc(),
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds && *final(self) == *old(self),
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret is Ok ==> ret->Ok_0@.len() == old(self).nr(),
ret is Ok ==> forall|j: int| 0 <= j < old(self).nr() ==> *(#[trigger] ret->Ok_0@[j]) == old(self).at(j, $0 as int) && *final(ret->Ok_0@[j]) == final(self).at(j, $0 as int),
ret is Ok ==> forall|i: int| 0 <= i < old(self).data@.len() && old(self).col_of(i) != $0 ==> #[trigger] final(self).data@[i] == old(self).data@[i],

@fn Matrix::iter_rows
@requires
self.coh(),
@ensures
ret@.len() == self.nr(),
forall|k: int| 0 <= k < self.nr() ==> (#[trigger] ret@[k])@ =~= refs(self.row_seq(k)),
@closure 0
|$c0: usize| -> (zr: SeqIter<&T>) requires $c0 < self.nr() ensures zr@ =~= refs(self.row_seq($c0 as int))
@fn Matrix::iter_cols
@requires
self.coh(),
@ensures
ret@.len() == self.nc(),
forall|k: int| 0 <= k < self.nc() ==> (#[trigger] ret@[k])@ =~= refs(self.col_seq(k)),
@closure 0
|$c0: usize| -> (zr: SeqIter<&T>) requires $c0 < self.nc() ensures zr@ =~= refs(self.col_seq($c0 as int))
@fn Matrix::iter_rows_mut
@props C03,C06,C17
@requires
old(self).coh(),
@ensures
covers_rows(*old(self), ret),
@fn Matrix::iter_cols_mut
@props C03,C06,C17
@requires
old(self).coh(),
@ensures
covers_cols(*old(self), ret),

@fn Matrix::iter_elements
@props C15,C16,C03,C06
@ensures
ret@ =~= refs(self.data@),
@fn Matrix::iter_elements_mut
@props C15,C16,C03,C06
@ensures
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret@.len() == old(self).data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> *(#[trigger] ret@[i]) == old(self).data@[i] && *final(ret@[i]) == final(self).data@[i],
@fn Matrix::into_iter_elements
@props C15,C16,C03,C06
@ensures
ret@ == self.data@,

@fn Matrix::iter_elements_with_index
@props C15,C16,C03,C06
@requires
self.coh(),
@ensures
ret@.len() == self.data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0.row == self.row_of(i) && ret@[i].0.col == self.col_of(i) && ret@[i].1 == &self.data@[i],
@closure 0
|$c0: (usize, &T)| -> (zr: (Index, &T)) requires self.shape.minor > 0 ensures zr.0.row == self.row_of($c0.0 as int) && zr.0.col == self.col_of($c0.0 as int) && zr.1 == $c0.1
@entry
proof { lemma_sz_zero(self.shape); }
@fn Matrix::iter_elements_mut_with_index
@props C15,C16,C03,C06
@requires
old(self).coh(),
@ensures
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(),
ret@.len() == old(self).data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0.row == old(self).row_of(i) && ret@[i].0.col == old(self).col_of(i) && *ret@[i].1 == old(self).data@[i] && *final(ret@[i].1) == final(self).data@[i],
@closure 0
|$c0: (usize, &mut T)| -> (zr: (Index, &mut T)) requires self.shape.minor > 0 ensures zr.0.row == self.row_of($c0.0 as int) && zr.0.col == self.col_of($c0.0 as int) && *zr.1 == *old($c0.1) && *final(zr.1) == *final($c0.1)
@entry
proof { lemma_sz_zero(self.shape); }
@fn Matrix::into_iter_elements_with_index
@props C15,C16,C03,C06
@requires
self.coh(),
@ensures
ret@.len() == self.data@.len(),
forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0.row == self.row_of(i) && ret@[i].0.col == self.col_of(i) && ret@[i].1 == self.data@[i],
@closure 0
|$c0: (usize, T)| -> (zr: (Index, T)) requires self.shape.minor > 0 ensures zr.0.row == self.row_of($c0.0 as int) && zr.0.col == self.col_of($c0.0 as int) && zr.1 == $c0.1
@entry
proof { lemma_sz_zero(self.shape); }
