@file_props C03,C06,C17
@fn Layout::is_counting
@ensures
ret == (size_of::<T>() == 0 || self.vector_length is None),

@fn IterVectorsMut::empty
@ensures
ret.wf() && ret.left() == 0,

@fn IterVectorsMut::over_empty_vectors
@ensures
ret.wf() && ret.left() == $0 && ret.vlen() == 0,
@exit
proof { if $0 > 0 { lemma_count_of(1, $0 as int, 1); } }

@fn IterVectorsMut::assemble
@requires
$1@ > 0 && $2@ > 0 && $3@ > 0 && $4@ > 0, //@C03
size_of::<T>() == 0 ==> ($2@ - 1) * $1@ + 1 <= usize::MAX && 1 + ($4@ - 1) * $3@ <= usize::MAX, //@C06
size_of::<T>() > 0 ==> $0.p.prov() && $0.p.off() == 0 && $0.p.alloc_ok() && $0.p.aligned() && ($2@ - 1) * $1@ + ($4@ - 1) * $3@ < $0.p.len() && $1@ <= $0.p.len() && $3@ <= $0.p.len() && $0.p.len() <= usize::MAX, //@MEM,C03
@ensures
ret.wf(),
ret.left() == $2@ && ret.vlen() == $4@,
size_of::<T>() > 0 ==> forall|k: int, j: int| 0 <= j < ret.vlen() ==> #[trigger] ret.vec_at(k)[j] == k * $1@ + j * $3@,
@entry
proof {
    assert($1@ * ($2@ - 1) == ($2@ - 1) * $1@) by (nonlinear_arith);
    lemma_count_of(0, $2@, $1@); lemma_count_of(1, $2@, $1@);
    lemma_count_of(0, $4@, $3@);
}

@fn <IterVectorsMut<T> as Iterator>::next
@requires
old(self).wf(), //@MEM
@ensures
final(self).wf(),
ret is None <==> old(self).left() == 0,
ret is None ==> final(self).left() == 0,
ret is Some ==> final(self).left() == old(self).left() - 1,
ret is Some ==> ret->0.wf() && ret->0.left().len() == old(self).vlen(),
ret is Some && size_of::<T>() > 0 ==> ret->0.left() =~= old(self).vec_at(0),
final(self).left() > 0 ==> final(self).vlen() == old(self).vlen(),
final(self).left() > 0 ==> forall|k: int| #[trigger] final(self).vec_at(k) =~= old(self).vec_at(k + 1),
@entry
proof { if self.layout is Some {
    let layout = self.layout->0;
    lemma_count(self.lower.p.off(), self.upper.p.off(), layout.axis_stride@);
    if size_of::<T>() > 0 && self.lower.p.prov() { lemma_addr_eq(self.lower.p, self.upper.p); }
    if layout.vector_length is Some { lemma_count_of(0, layout.vector_length->0@, layout.vector_stride@); }
} }
let ghost lo = self.lower.p.off();
@exit
proof { if old(self).layout is Some {
    let st = old(self).layout->0.axis_stride@;
    assert forall|k: int| (lo + st) + k * st == lo + #[trigger] ((k + 1) * st) by { assert((k + 1) * st == k * st + st) by (nonlinear_arith); }
    assert(0int * st == 0) by (nonlinear_arith);
    if self.layout is Some {
        assert forall|k: int| #[trigger] self.vec_at(k) =~= old(self).vec_at(k + 1) by { assert((lo + st) + k * st == lo + ((k + 1) * st)); }
    }
} }

@fn <IterVectorsMut<T> as DoubleEndedIterator>::next_back
@requires
old(self).wf(), //@MEM
@ensures
final(self).wf(),
ret is None <==> old(self).left() == 0,
ret is None ==> final(self).left() == 0,
ret is Some ==> final(self).left() == old(self).left() - 1,
ret is Some ==> ret->0.wf() && ret->0.left().len() == old(self).vlen(),
ret is Some && size_of::<T>() > 0 ==> ret->0.left() =~= old(self).vec_at(old(self).left() - 1),
final(self).left() > 0 ==> final(self).vlen() == old(self).vlen(),
final(self).left() > 0 ==> forall|k: int| #[trigger] final(self).vec_at(k) =~= old(self).vec_at(k),
@entry
proof { if self.layout is Some {
    let layout = self.layout->0;
    lemma_count(self.lower.p.off(), self.upper.p.off(), layout.axis_stride@);
    if size_of::<T>() > 0 && self.lower.p.prov() { lemma_addr_eq(self.lower.p, self.upper.p); }
    if layout.vector_length is Some { lemma_count_of(0, layout.vector_length->0@, layout.vector_stride@); }
} }

@fn <IterVectorsMut<T> as Iterator>::size_hint
@requires
self.wf(), //@MEM
@ensures
ret.0 == self.left() && ret.1 == Some(ret.0),
@entry
proof { if self.layout is Some {
    let (lo, hi, st) = (self.lower.p.off(), self.upper.p.off(), self.layout->0.axis_stride@);
    lemma_count(lo, hi, st);
    if self.lower.p.prov() { lemma_addr_diff(self.lower.p, self.upper.p, st); }
} }

@fn <IterVectorsMut<T> as ExactSizeIterator>::len
@requires
self.wf(), //@MEM
@ensures
ret == self.left(),

@fn IterNthVectorMut::empty
@ensures
ret.wf() && ret.left().len() == 0,

@fn IterNthVectorMut::assemble
@requires
$1@ > 0 && $2@ > 0, //@C03
size_of::<T>() == 0 ==> 1 + ($2@ - 1) * $1@ <= usize::MAX, //@C06
size_of::<T>() > 0 ==> $0.p.prov() && $0.p.alloc_ok() && $0.p.aligned() && 0 <= $0.p.off() && $0.p.off() + ($2@ - 1) * $1@ < $0.p.len() && $1@ <= $0.p.len() && $0.p.len() <= usize::MAX, //@MEM,C03
@ensures
ret.wf(),
ret.left().len() == $2@,
size_of::<T>() > 0 ==> forall|j: int| 0 <= j < $2@ ==> #[trigger] ret.left()[j] == $0.p.off() + j * $1@,
@entry
proof {
    lemma_count_of($0.p.off(), $2@, $1@); lemma_count_of(1, $2@, $1@);
}

@fn IterNthVectorMut::over_major_axis_vector
@requires
old($0).coh(),
@ensures
ret is Ok <==> $1 < old($0).shape.major,
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds,
ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.left().len() == old($0).shape.minor,
ret is Ok && size_of::<T>() > 0 ==> forall|j: int| 0 <= j < old($0).shape.minor ==> #[trigger] ret->Ok_0.left()[j] == $1 * old($0).shape.minor + j,
@entry
proof { if $0.data@.len() > 0 { lemma_axes(*$0); if $1 < $0.shape.major { lemma_pos_bound($1 as int, 0, $0.shape.major as int, $0.shape.minor as int); lemma_pos_bound($1 as int, $0.shape.minor - 1, $0.shape.major as int, $0.shape.minor as int); } } else { lemma_sz_zero($0.shape); } }

@fn IterNthVectorMut::over_minor_axis_vector
@requires
old($0).coh(),
@ensures
ret is Ok <==> $1 < old($0).shape.minor,
ret is Err ==> ret->Err_0 == Error::IndexOutOfBounds,
ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.left().len() == old($0).shape.major,
ret is Ok && size_of::<T>() > 0 ==> forall|j: int| 0 <= j < old($0).shape.major ==> #[trigger] ret->Ok_0.left()[j] == j * old($0).shape.minor + $1,
@entry
proof { if $0.data@.len() > 0 { lemma_axes(*$0); if $1 < $0.shape.minor { lemma_pos_bound(0, $1 as int, $0.shape.major as int, $0.shape.minor as int); lemma_pos_bound($0.shape.major - 1, $1 as int, $0.shape.major as int, $0.shape.minor as int); } } else { lemma_sz_zero($0.shape); } }

@fn <IterNthVectorMut<T> as Iterator>::next
@requires
old(self).wf(), //@MEM
@ensures
final(self).wf(),
ret is None <==> old(self).left().len() == 0,
ret is None ==> final(self).left().len() == 0,
ret is Some ==> final(self).left() =~= old(self).left().skip(1),
ret is Some && size_of::<T>() > 0 ==> ret->0.pos() == old(self).left()[0] && ret->0.base() == old(self).lower.p.base(),
final(self).left().len() > 0 && size_of::<T>() > 0 ==> final(self).lower.p.base() == old(self).lower.p.base(),
@entry
proof { if self.stride is Some {
    lemma_count(self.lower.p.off(), self.upper.p.off(), self.stride->0@);
    if size_of::<T>() > 0 { lemma_addr_eq(self.lower.p, self.upper.p); }
} }
let ghost lo = self.lower.p.off();
@exit
proof { if old(self).stride is Some {
    let st = old(self).stride->0@;
    assert forall|k: int| (lo + st) + k * st == lo + #[trigger] ((k + 1) * st) by { assert((k + 1) * st == k * st + st) by (nonlinear_arith); }
    assert(0int * st == 0) by (nonlinear_arith);
    if self.stride is Some {
        assert forall|k: int| 0 <= k < self.left().len() implies self.left()[k] == old(self).left().skip(1)[k] by { assert((lo + st) + k * st == lo + ((k + 1) * st)); }
    }
} }

@fn <IterNthVectorMut<T> as DoubleEndedIterator>::next_back
@requires
old(self).wf(), //@MEM
@ensures
final(self).wf(),
ret is None <==> old(self).left().len() == 0,
ret is None ==> final(self).left().len() == 0,
ret is Some ==> final(self).left() =~= old(self).left().drop_last(),
ret is Some && size_of::<T>() > 0 ==> ret->0.pos() == old(self).left().last() && ret->0.base() == old(self).lower.p.base(),
final(self).left().len() > 0 && size_of::<T>() > 0 ==> final(self).lower.p.base() == old(self).lower.p.base(),
@entry
proof { if self.stride is Some {
    lemma_count(self.lower.p.off(), self.upper.p.off(), self.stride->0@);
    if size_of::<T>() > 0 { lemma_addr_eq(self.lower.p, self.upper.p); }
} }

@fn <IterNthVectorMut<T> as Iterator>::size_hint
@requires
self.wf(), //@MEM
@ensures
ret.0 == self.left().len() && ret.1 == Some(ret.0),
@entry
proof { if self.stride is Some {
    let (lo, hi, st) = (self.lower.p.off(), self.upper.p.off(), self.stride->0@);
    lemma_count(lo, hi, st);
    if self.lower.p.prov() { lemma_addr_diff(self.lower.p, self.upper.p, st); }
} }

@fn <IterNthVectorMut<T> as ExactSizeIterator>::len
@requires
self.wf(), //@MEM
@ensures
ret == self.left().len(),

@fn IterVectorsMut::over_major_axis
@requires
old($0).coh(),
@ensures
ret.wf() && ret.left() == old($0).shape.major,
old($0).shape.major > 0 ==> ret.vlen() == old($0).shape.minor,
size_of::<T>() > 0 ==> forall|k: int, j: int| 0 <= k < old($0).shape.major && 0 <= j < old($0).shape.minor ==> #[trigger] ret.vec_at(k)[j] == k * old($0).shape.minor + j,
@entry
proof { if $0.data@.len() > 0 { lemma_axes(*$0); } else { lemma_sz_zero($0.shape); } }

@fn IterVectorsMut::over_minor_axis
@requires
old($0).coh(),
@ensures
ret.wf() && ret.left() == old($0).shape.minor,
old($0).shape.minor > 0 ==> ret.vlen() == old($0).shape.major,
size_of::<T>() > 0 ==> forall|k: int, j: int| 0 <= k < old($0).shape.minor && 0 <= j < old($0).shape.major ==> #[trigger] ret.vec_at(k)[j] == j * old($0).shape.minor + k,
@entry
proof { if $0.data@.len() > 0 { lemma_axes(*$0); } else { lemma_sz_zero($0.shape); } }
