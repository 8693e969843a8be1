@file_props C01,C07

@fn Matrix::order
@ensures
ret == self.order,
@fn Matrix::shape
@ensures
ret.nrows == self.nr(),
ret.ncols == self.nc(),
@fn Matrix::nrows
@ensures
ret == self.nr(),
@fn Matrix::ncols
@ensures
ret == self.nc(),
@fn Matrix::size
@ensures
ret == self.data@.len(),
@fn Matrix::is_empty
@ensures
ret == (self.data@.len() == 0),
@fn Matrix::capacity
@ensures
ret >= self.data@.len(),
@fn Matrix::major
@ensures
ret == self.shape.major,
@fn Matrix::minor
@ensures
ret == self.shape.minor,
@fn Matrix::major_stride
@ensures
ret == self.shape.minor,
@fn Matrix::minor_stride
@ensures
ret == 1,

@fn Matrix::get
@props C04,C13
@requires
self.coh(),
@ensures
match ret {
    Ok(e) => exists|p: AxisIndex| #[trigger] $0.vp_res(*self, Some(p)) && inside(self.shape, p) && *e == I::vp_out(self.data@[flat(self.shape, p)]),
    Err(e) => e == Error::IndexOutOfBounds && $0.vp_res(*self, None),
}, //@C04,C13
@fn Matrix::get_mut
@props C04,C13
@requires
old(self).coh(),
@ensures
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(), //@C04,C01
match ret {
    Ok(e) => exists|p: AxisIndex| #[trigger] $0.vp_res(*old(self), Some(p)) && inside(old(self).shape, p)
        && *e == I::vp_out(old(self).data@[flat(old(self).shape, p)])
        && *final(e) == I::vp_out(final(self).data@[flat(old(self).shape, p)])
        && (forall|i: int| 0 <= i < old(self).data@.len() && i != flat(old(self).shape, p) ==> final(self).data@[i] == old(self).data@[i]),
    Err(e) => e == Error::IndexOutOfBounds && $0.vp_res(*old(self), None) && final(self).data@ == old(self).data@,
}, //@C04,C13
@fn Matrix::get_unchecked
@props C04,C13
@requires
self.coh(),
forall|o: Option<AxisIndex>| #[trigger] $0.vp_res(*self, o) ==> o is Some,
@ensures
exists|p: AxisIndex| #[trigger] $0.vp_res(*self, Some(p)) && inside(self.shape, p) && *ret == I::vp_out(self.data@[flat(self.shape, p)]), //@C04,C13
@fn Matrix::get_unchecked_mut
@props C04,C13
@requires
old(self).coh(),
forall|o: Option<AxisIndex>| #[trigger] $0.vp_res(*old(self), o) ==> o is Some,
@ensures
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(), //@C04,C01
exists|p: AxisIndex| #[trigger] $0.vp_res(*old(self), Some(p)) && inside(old(self).shape, p)
        && *ret == I::vp_out(old(self).data@[flat(old(self).shape, p)])
        && *final(ret) == I::vp_out(final(self).data@[flat(old(self).shape, p)])
        && (forall|i: int| 0 <= i < old(self).data@.len() && i != flat(old(self).shape, p) ==> final(self).data@[i] == old(self).data@[i]), //@C04,C13
@fn <Matrix<T> as Index<I>>::index
@props C04,C13
@requires
self.coh(),
@ensures
exists|p: AxisIndex| #[trigger] $0.vp_res(*self, Some(p)) && inside(self.shape, p) && *ret == I::vp_out(self.data@[flat(self.shape, p)]), //@C04,C13
@fn <Matrix<T> as IndexMut<I>>::index_mut
@props C04,C13
@requires
old(self).coh(),
@ensures
final(self).order == old(self).order && final(self).shape == old(self).shape && final(self).data@.len() == old(self).data@.len(), //@C04,C01
exists|p: AxisIndex| #[trigger] $0.vp_res(*old(self), Some(p)) && inside(old(self).shape, p)
        && *ret == I::vp_out(old(self).data@[flat(old(self).shape, p)])
        && *final(ret) == I::vp_out(final(self).data@[flat(old(self).shape, p)])
        && (forall|i: int| 0 <= i < old(self).data@.len() && i != flat(old(self).shape, p) ==> final(self).data@[i] == old(self).data@[i]), //@C04,C13
