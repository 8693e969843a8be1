@file_props C04,C01,C07,C15

@trait MatrixIndex
/// which axis position this index value may denote in `m` (None: out of bounds)
spec fn vp_res(&self, m: Matrix<T>, o: Option<AxisIndex>) -> bool;
spec fn vp_out(x: T) -> Self::Output;

@trait AsIndex
/// a caller-defined accessor may return any value allowed by these relations,
/// and a different one on each call
spec fn vp_row(&self, r: usize) -> bool;
spec fn vp_col(&self, c: usize) -> bool;

@trait <Index as AsIndex>
open spec fn vp_row(&self, r: usize) -> bool { r == self.row }
open spec fn vp_col(&self, c: usize) -> bool { c == self.col }
@trait <(usize,usize) as AsIndex>
open spec fn vp_row(&self, r: usize) -> bool { r == self.0 }
open spec fn vp_col(&self, c: usize) -> bool { c == self.1 }
@trait <[usize;2] as AsIndex>
open spec fn vp_row(&self, r: usize) -> bool { r == self[0] }
open spec fn vp_col(&self, c: usize) -> bool { c == self[1] }

@trait <I as MatrixIndex<T>>
open spec fn vp_res(&self, m: Matrix<T>, o: Option<AxisIndex>) -> bool {
    exists|p: AxisIndex| #[trigger] reach(*self, m.order, p) && o == inb(m.shape, p)
}
open spec fn vp_out(x: T) -> T { x }

@trait <AxisIndex as MatrixIndex<T>>
open spec fn vp_res(&self, m: Matrix<T>, o: Option<AxisIndex>) -> bool { o == inb(m.shape, *self) }
open spec fn vp_out(x: T) -> T { x }

@trait <WrappingIndex as MatrixIndex<T>>
open spec fn vp_res(&self, m: Matrix<T>, o: Option<AxisIndex>) -> bool {
    o == (if m.shape.sz() == 0 { None } else { Some(wrap_of(m.order, m.shape, *self)) })
}
open spec fn vp_out(x: T) -> T { x }

@fn AsIndex::row
@ensures
self.vp_row(ret),
@fn AsIndex::col
@ensures
self.vp_col(ret),

@fn Index::new
@ensures
ret == (Index { row: $0, col: $1 }),
@fn Index::swap
@ensures
*final(ret) == *final(self),
*ret == (Index { row: old(self).col, col: old(self).row }),
@fn <Index as From<(usize,usize)>>::from
@ensures
ret == (Index { row: $0.0, col: $0.1 }),
@fn <Index as From<[usize;2]>>::from
@ensures
ret == (Index { row: $0[0], col: $0[1] }),
@fn WrappingIndex::new
@ensures
ret == (WrappingIndex { row: $0, col: $1 }),
@fn WrappingIndex::swap
@ensures
*final(ret) == *final(self),
*ret == (WrappingIndex { row: old(self).col, col: old(self).row }),
@fn AxisIndex::swap
@ensures
*final(ret) == *final(self),
*ret == (AxisIndex { major: old(self).minor, minor: old(self).major }),

@fn Index::from_flattened
@requires
$2.minor > 0,
@ensures
axis_of($1, ret.row, ret.col) == (AxisIndex { major: ($0 / $2.minor) as usize, minor: ($0 % $2.minor) as usize }),
@fn Index::to_flattened
@requires
inside($1, axis_of($0, self.row, self.col)),
$1.sz() <= usize::MAX,
@ensures
ret == lpos($0, $1, self.row as int, self.col as int),
0 <= ret < $1.sz(),
@exit
proof { lemma_flat($1, axis_of($0, self.row, self.col)); }

@fn AxisIndex::from_index
@props C04,C01,C07
@ensures
reach(*$0, $1, ret), //@C04,C07
@fn AxisIndex::to_index
@ensures
axis_of($0, ret.row, ret.col) == self,

@fn AxisIndex::from_wrapping_index
@props C13
@requires
$2.major > 0,
$2.minor > 0,
@ensures
ret == wrap_of($1, $2, $0), //@C13
inside($2, ret), //@C13
@exit
proof { lemma_wrap($0.row as int, $2.nr($1)); lemma_wrap($0.col as int, $2.nc($1)); lemma_quot($0.row as int, $2.nr($1)); lemma_quot($0.col as int, $2.nc($1)); }

@fn AxisIndex::from_flattened
@requires
$1.minor > 0,
@ensures
ret.major == $0 / $1.minor,
ret.minor == $0 % $1.minor,
@entry
proof { lemma_quot($0 as int, $1.minor as int); }
@fn AxisIndex::to_flattened
@requires
inside($0, self),
$0.sz() <= usize::MAX,
@ensures
ret == flat($0, self),
0 <= ret < $0.sz(),
@entry
proof { lemma_flat($0, self); }

@fn MatrixIndex::is_out_of_bounds
@requires
$0.coh(),
@ensures
exists|o: Option<AxisIndex>| #[trigger] self.vp_res(*$0, o) && ret == (o is None), //@C04,C13
@fn MatrixIndex::ensure_in_bounds
@requires
$0.coh(),
@ensures
match ret {
    Ok(e) => *e == *self && exists|p: AxisIndex| #[trigger] self.vp_res(*$0, Some(p)),
    Err(e) => e == Error::IndexOutOfBounds && self.vp_res(*$0, None),
}, //@C04,C13
@fn MatrixIndex::get
@requires
$0.coh(),
@ensures
match ret {
    Ok(e) => exists|p: AxisIndex| #[trigger] self.vp_res(*$0, Some(p)) && inside($0.shape, p) && *e == Self::vp_out($0.data@[flat($0.shape, p)]),
    Err(e) => e == Error::IndexOutOfBounds && self.vp_res(*$0, None),
}, //@C04,C13
@fn MatrixIndex::get_mut
@requires
old($0).coh(),
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C04,C01
match ret {
    Ok(e) => exists|p: AxisIndex| #[trigger] self.vp_res(*old($0), Some(p)) && inside(old($0).shape, p)
        && *e == Self::vp_out(old($0).data@[flat(old($0).shape, p)])
        && *final(e) == Self::vp_out(final($0).data@[flat(old($0).shape, p)])
        && (forall|i: int| 0 <= i < old($0).data@.len() && i != flat(old($0).shape, p) ==> final($0).data@[i] == old($0).data@[i]),
    Err(e) => e == Error::IndexOutOfBounds && self.vp_res(*old($0), None) && final($0).data@ == old($0).data@,
}, //@C04,C13
@fn MatrixIndex::get_unchecked
@requires
$0.coh(),
forall|o: Option<AxisIndex>| #[trigger] self.vp_res(*$0, o) ==> o is Some, //@C04,C13
@ensures
exists|p: AxisIndex| #[trigger] self.vp_res(*$0, Some(p)) && inside($0.shape, p) && *ret == Self::vp_out($0.data@[flat($0.shape, p)]), //@C04,C13
@fn MatrixIndex::get_unchecked_mut
@requires
old($0).coh(),
forall|o: Option<AxisIndex>| #[trigger] self.vp_res(*old($0), o) ==> o is Some, //@C04,C13
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C04,C01
exists|p: AxisIndex| #[trigger] self.vp_res(*old($0), Some(p)) && inside(old($0).shape, p)
        && *ret == Self::vp_out(old($0).data@[flat(old($0).shape, p)])
        && *final(ret) == Self::vp_out(final($0).data@[flat(old($0).shape, p)])
        && (forall|i: int| 0 <= i < old($0).data@.len() && i != flat(old($0).shape, p) ==> final($0).data@[i] == old($0).data@[i]), //@C04,C13
@fn MatrixIndex::index
@requires
$0.coh(),
@panics_when self.vp_res(*$0, None)
@ensures
exists|p: AxisIndex| #[trigger] self.vp_res(*$0, Some(p)) && inside($0.shape, p) && *ret == Self::vp_out($0.data@[flat($0.shape, p)]), //@C04,C13
@fn MatrixIndex::index_mut
@requires
old($0).coh(),
@panics_when self.vp_res(*old($0), None)
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C04,C01
exists|p: AxisIndex| #[trigger] self.vp_res(*old($0), Some(p)) && inside(old($0).shape, p)
        && *ret == Self::vp_out(old($0).data@[flat(old($0).shape, p)])
        && *final(ret) == Self::vp_out(final($0).data@[flat(old($0).shape, p)])
        && (forall|i: int| 0 <= i < old($0).data@.len() && i != flat(old($0).shape, p) ==> final($0).data@[i] == old($0).data@[i]), //@C04,C13

@fn <AxisIndex as MatrixIndex<T>>::get_unchecked
@entry
proof { assert(self.vp_res(*$0, inb($0.shape, self))); lemma_flat($0.shape, self); }
@fn <AxisIndex as MatrixIndex<T>>::get_unchecked_mut
@entry
proof { assert(self.vp_res(*old($0), inb($0.shape, self))); lemma_flat($0.shape, self); }
@fn <AxisIndex as MatrixIndex<T>>::is_out_of_bounds
@entry
proof { assert(self.vp_res(*$0, inb($0.shape, *self))); }
@fn <I as MatrixIndex<T>>::is_out_of_bounds
@entry
proof { lemma_res_all(*self, *$0); }
@fn <I as MatrixIndex<T>>::get
@entry
proof { lemma_res_all(self, *$0); }
@fn <I as MatrixIndex<T>>::get_unchecked
@entry
proof { lemma_res_all(self, *$0); }
@fn <I as MatrixIndex<T>>::get_mut
@entry
proof { lemma_res_all(self, *old($0)); }
@fn <I as MatrixIndex<T>>::get_unchecked_mut
@entry
proof { lemma_res_all(self, *old($0)); }
@fn <WrappingIndex as MatrixIndex<T>>::is_out_of_bounds
@entry
proof { lemma_res_wrap(*self, *$0); }
@fn <WrappingIndex as MatrixIndex<T>>::get_unchecked
@entry
proof { lemma_res_wrap(self, *$0); }
@fn <WrappingIndex as MatrixIndex<T>>::get_unchecked_mut
@entry
proof { lemma_res_wrap(self, *old($0)); }
