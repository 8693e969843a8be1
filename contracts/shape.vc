@file_props C08,C01,C07

@fn Shape::new
@ensures
ret.nrows == $0,
ret.ncols == $1,
@fn Shape::nrows
@ensures
ret == self.nrows,
@fn Shape::ncols
@ensures
ret == self.ncols,
@fn Shape::size
@props C08
@ensures
ret == (if self.nrows * self.ncols <= usize::MAX { Ok::<usize, Error>((self.nrows * self.ncols) as usize) } else { Err(Error::SizeOverflow) }), //@C08,C01
@fn Shape::transpose
@ensures
*final(ret) == *final(self),
ret.nrows == old(self).ncols,
ret.ncols == old(self).nrows,
@fn Shape::try_to_axis_shape
@props C08,C01
@ensures
ret == (if self.nrows * self.ncols <= usize::MAX { Ok::<AxisShape, Error>(shape_of($0, self.nrows, self.ncols)) } else { Err(Error::SizeOverflow) }), //@C08,C01
ret is Ok ==> ret->Ok_0.sz() == self.nrows * self.ncols,
@exit
proof { lemma_shape_of_sz($0, self.nrows, self.ncols); }
@fn Shape::to_axis_shape_unchecked
@ensures
ret == shape_of($0, self.nrows, self.ncols),
ret.sz() == self.nrows * self.ncols,
@exit
proof { lemma_shape_of_sz($0, self.nrows, self.ncols); }
@fn <Shape as From<(usize,usize)>>::from
@ensures
ret == (Shape { nrows: $0.0, ncols: $0.1 }),
@fn <Shape as From<[usize;2]>>::from
@ensures
ret == (Shape { nrows: $0[0], ncols: $0[1] }),
@fn AxisShape::major
@ensures
ret == self.major,
@fn AxisShape::minor
@ensures
ret == self.minor,
@fn AxisShape::major_stride
@ensures
ret == self.minor,
@fn AxisShape::minor_stride
@ensures
ret == 1,
@fn AxisShape::size
@requires
self.sz() <= usize::MAX,
@ensures
ret == self.sz(),
@fn AxisShape::transpose
@ensures
*final(ret) == *final(self),
*ret == old(self).swapped(),
@fn AxisShape::nrows
@ensures
ret == self.nr($0),
@fn AxisShape::ncols
@ensures
ret == self.nc($0),
@fn AxisShape::to_shape
@ensures
ret.nrows == self.nr($0),
ret.ncols == self.nc($0),
@fn Order::switch
@props C05,C07
@ensures
*final(ret) == *final(self),
*ret == other(*old(self)),
