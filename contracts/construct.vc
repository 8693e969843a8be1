@file_props C19,C01

@fn Matrix::new
@ensures
ret.shape == (AxisShape { major: 0, minor: 0 }) && ret.data@.len() == 0, //@C01,C19
@fn <Matrix<T> as Default>::default
@ensures
ret.shape == (AxisShape { major: 0, minor: 0 }) && ret.data@.len() == 0, //@C01,C19
@fn Matrix::with_capacity
@requires
fits::<T>($0 as int),
@ensures
ret.shape == (AxisShape { major: 0, minor: 0 }) && ret.data@.len() == 0, //@C01,C19

@fn Matrix::with_default
@props C19,C08,C01
@ensures
exists|sh: Shape| #[trigger] call_ensures(<S as Into<Shape>>::into, ($0,), sh) && (match ret {
    Ok(zm) => sh.nrows * sh.ncols <= usize::MAX && fits::<T>(sh.nrows * sh.ncols) && zm.shape == shape_of(zm.order, sh.nrows, sh.ncols) && zm.coh()
        && forall|i: int| 0 <= i < zm.data@.len() ==> default_of(#[trigger] zm.data@[i]),
    Err(e) => if sh.nrows * sh.ncols > usize::MAX { e == Error::SizeOverflow } else { e == Error::CapacityOverflow && !fits::<T>(sh.nrows * sh.ncols) },
}), //@C19,C08,C01

@fn Matrix::with_value
@props C19,C08,C01
@ensures
exists|sh: Shape| #[trigger] call_ensures(<S as Into<Shape>>::into, ($0,), sh) && (match ret {
    Ok(zm) => sh.nrows * sh.ncols <= usize::MAX && fits::<T>(sh.nrows * sh.ncols) && zm.shape == shape_of(zm.order, sh.nrows, sh.ncols) && zm.coh()
        && forall|i: int| 0 <= i < zm.data@.len() ==> clone_of($1, #[trigger] zm.data@[i]) || zm.data@[i] == $1,
    Err(e) => if sh.nrows * sh.ncols > usize::MAX { e == Error::SizeOverflow } else { e == Error::CapacityOverflow && !fits::<T>(sh.nrows * sh.ncols) },
}), //@C19,C08,C01

@fn Matrix::with_initializer
@props C19,C08,C01
@requires
old($t0).log.len() == 0,
forall|x: Index| $1.requires((x,)),
@ensures
exists|sh: Shape| #[trigger] call_ensures(<S as Into<Shape>>::into, ($0,), sh) && (match ret {
    Ok(zm) => sh.nrows * sh.ncols <= usize::MAX && fits::<T>(sh.nrows * sh.ncols) && zm.shape == shape_of(zm.order, sh.nrows, sh.ncols) && zm.coh()
        && final($t0).log.len() == zm.data@.len()
        && forall|i: int| 0 <= i < zm.data@.len() ==> (#[trigger] final($t0).log[i]).1 == zm.data@[i] && $1.ensures((final($t0).log[i].0,), zm.data@[i])
            && flat(zm.shape, axis_of(zm.order, final($t0).log[i].0.row, final($t0).log[i].0.col)) == i && inside(zm.shape, axis_of(zm.order, final($t0).log[i].0.row, final($t0).log[i].0.col)),
    Err(e) => if sh.nrows * sh.ncols > usize::MAX { e == Error::SizeOverflow } else { e == Error::CapacityOverflow && !fits::<T>(sh.nrows * sh.ncols) },
}), //@C19,C08,C01
@loop 0
invariant
__tr0.log.len() == __k0,
data@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> (#[trigger] __tr0.log[i]).1 == data@[i] && initializer.ensures((__tr0.log[i].0,), data@[i])
    && flat(shape, axis_of(order, __tr0.log[i].0.row, __tr0.log[i].0.col)) == i && inside(shape, axis_of(order, __tr0.log[i].0.row, __tr0.log[i].0.col)),
@at loop0.begin
proof { lemma_divmod(__j0, shape.major as int, shape.minor as int); }

@fn <Matrix<T> as Clone>::clone
@props C01,C07,C11
@requires
self.coh(),
@ensures
vp_clone_of_Matrix(*self, ret), //@C07,C11,C01
@fn <Matrix<T> as Clone>::clone_from
@props C01,C02
@requires
old(self).coh() && $0.coh(),
@ensures
vp_clone_of_Matrix(*$0, *final(self)), //@C01,C02
