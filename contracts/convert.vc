@file_props C19,C01

@fn Matrix::from_row
@ensures
exists|zv: Vec<T>| #[trigger] call_ensures(<R as Into<Vec<T>>>::into, ($0,), zv) && ret.data@ == zv@ && ret.coh() && ret.nr() == 1 && ret.nc() == zv@.len()
    && forall|c: int| 0 <= c < zv@.len() ==> #[trigger] ret.at(0, c) == zv@[c], //@C19,C01
@entry
proof { assert forall|n: int| #[trigger] (1 * n) == n && n * 1 == n by {} }
@fn Matrix::from_col
@ensures
exists|zv: Vec<T>| #[trigger] call_ensures(<C as Into<Vec<T>>>::into, ($0,), zv) && ret.data@ == zv@ && ret.coh() && ret.nr() == zv@.len() && ret.nc() == 1
    && forall|r: int| 0 <= r < zv@.len() ==> #[trigger] ret.at(r, 0) == zv@[r], //@C19,C01
@entry
proof { assert forall|n: int| #[trigger] (1 * n) == n && n * 1 == n by {} }

@fn <Matrix<T> as From<[[T;C];R]>>::from
@requires
R * C <= usize::MAX && fits::<T>(R * C),
@ensures
has_rows(ret, arr_seqs($0@), C as int), //@C19,C01
@entry
proof { lemma_flat_rows($0@, C as int); assert(row_seqs($0@) =~= arr_seqs($0@)); }
@at result
proof { lemma_has_rows(__res, $0@, C as int); }

@fn <Matrix<T> as From<Vec<[T;C]>>>::from
@requires
$0@.len() * C <= usize::MAX && fits::<T>($0@.len() * C),
@ensures
has_rows(ret, arr_seqs($0@), C as int), //@C19,C01
@entry
proof { lemma_flat_rows($0@, C as int); assert(row_seqs($0@) =~= arr_seqs($0@)); }
@at result
proof { lemma_has_rows(__res, $0@, C as int); }

@fn <Matrix<T> as From<&[[T;C]]>>::from
@requires
$0@.len() * C <= usize::MAX && fits::<T>($0@.len() * C),
@ensures
has_rows_cl(ret, arr_seqs($0@), C as int), //@C19,C01
@entry
let ghost __rr = refs($0@);
proof { lemma_flat_rows(__rr, C as int); }
@loop 0
invariant
__s0 == vp_flat(__rr),
__out0@.len() == __k0,
forall|i: int| 0 <= i < __k0 ==> clone_of(*(#[trigger] __s0[i]), __out0@[i]),
@at result
proof {
    let data = __res.data;
    let s = arr_seqs($0@);
    assert forall|r: int, c: int| 0 <= r < s.len() && 0 <= c < C implies clone_of(s[r][c], data@[#[trigger] rc(r, C as int, c)]) by {
        assert(vp_flat(__rr)[rc(r, C as int, c)] == __rr[r].vp_seq()[c]);
        lemma_pos_bound(r, c, s.len() as int, C as int);
        assert(clone_of(*vp_flat(__rr)[rc(r, C as int, c)], data@[rc(r, C as int, c)]));
    }
    lemma_has_rows_cl(__res, s, C as int);
}

@fn <Matrix<T> as TryFrom<[Vec<T>;C]>>::try_from
@props C19,C08,C01
@ensures
rows_result(ret, vec_seqs($0@), true), //@C19,C08,C01
ret is Ok ==> has_rows(ret->Ok_0, vec_seqs($0@), ret->Ok_0.nc()), //@C19,C01
@entry
let ghost __v = $0@;
proof { assert(row_seqs(__v) =~= vec_seqs(__v)); }
@loop 0
invariant
__s0 == __v,
rows_in(data@, __v, __k0, ncols as int),
@at loop0.init
proof { assert(0 * ncols == 0) by (nonlinear_arith); }
@at loop0.begin
proof {
    assert(row == __v[__j0]); assert(vec_seqs(__v)[__j0] == row@);
    assert(__j0 * ncols + ncols <= __v.len() * ncols) by (nonlinear_arith) requires __j0 + 1 <= __v.len(), ncols >= 0;
    if row.len() == ncols { lemma_rows_step(data@, __v, __j0, ncols as int); }
}
@exit
proof { lemma_has_rows(Matrix { order, shape, data }, __v, ncols as int); assert forall|r: int| 0 <= r < __v.len() implies (#[trigger] vec_seqs(__v)[r]).len() == ncols by { assert(__v[r].vp_seq().len() == ncols); } }

@fn <Matrix<T> as TryFrom<Vec<Vec<T>>>>::try_from
@props C19,C08,C01
@ensures
rows_result(ret, vec_seqs($0@), true), //@C19,C08,C01
ret is Ok ==> has_rows(ret->Ok_0, vec_seqs($0@), ret->Ok_0.nc()), //@C19,C01
@entry
let ghost __v = $0@;
proof { assert(row_seqs(__v) =~= vec_seqs(__v)); }
@loop 0
invariant
__s0 == __v,
rows_in(data@, __v, __k0, ncols as int),
@at loop0.init
proof { assert(0 * ncols == 0) by (nonlinear_arith); }
@at loop0.begin
proof {
    assert(row == __v[__j0]); assert(vec_seqs(__v)[__j0] == row@);
    assert(__j0 * ncols + ncols <= __v.len() * ncols) by (nonlinear_arith) requires __j0 + 1 <= __v.len(), ncols >= 0;
    if row.len() == ncols { lemma_rows_step(data@, __v, __j0, ncols as int); }
}
@exit
proof { lemma_has_rows(Matrix { order, shape, data }, __v, ncols as int); assert forall|r: int| 0 <= r < __v.len() implies (#[trigger] vec_seqs(__v)[r]).len() == ncols by { assert(__v[r].vp_seq().len() == ncols); } }

@fn <Matrix<T> as TryFrom<&[Vec<T>]>>::try_from
@props C19,C08,C01
@ensures
rows_result(ret, vec_seqs($0@), true), //@C19,C08,C01
ret is Ok ==> has_rows_cl(ret->Ok_0, vec_seqs($0@), ret->Ok_0.nc()), //@C19,C01
@entry
let ghost __v = vec_seqs($0@);
@loop 0
invariant
__s0 == refs($0@),
rows_cl(data@, __v, __k0, ncols as int),
@at loop0.init
proof { assert(0 * ncols == 0) by (nonlinear_arith); }
@at loop0.begin
let ghost __d = data@;
proof {
    assert(row == __s0[__j0]); assert(__v[__j0] == row@);
    assert(__j0 * ncols + ncols <= __v.len() * ncols) by (nonlinear_arith) requires __j0 + 1 <= __v.len(), ncols >= 0;
}
@at loop0.end
proof { lemma_rows_cl_step(__d, data@, __v, __j0, ncols as int); }
@exit
proof { lemma_has_rows_cl(Matrix { order, shape, data }, __v, ncols as int); }

@fn <Matrix<T> as FromIterator<V>>::from_iter
@requires
vp_flat($0.vp_seq()).len() <= usize::MAX && fits::<T>(vp_flat($0.vp_seq()).len() as int),
$0.vp_seq().len() <= usize::MAX,
@panics_when exists|r: int| 0 <= r < __v.len() && (#[trigger] __v[r]).vp_seq().len() != __v[0].vp_seq().len()
@ensures
$0.vp_seq().len() == 0 ==> ret.shape == (AxisShape { major: 0, minor: 0 }) && ret.data@.len() == 0, //@C19,C01
$0.vp_seq().len() > 0 ==> has_rows(ret, row_seqs($0.vp_seq()), $0.vp_seq()[0].vp_seq().len() as int), //@C19,C01
@entry
let ghost __v = $0.vp_seq();
proof { if __v.len() > 0 { lemma_flat_take(__v, 1); assert(__v.take(0).len() == 0); } }
@at loop0.init
proof { assert(rows_in(data@, __v, 1, ncols as int)) by {
    assert(1 * ncols == ncols) by (nonlinear_arith);
    assert forall|r: int, c: int| 0 <= r < 1 && 0 <= c < ncols implies data@[#[trigger] rc(r, ncols as int, c)] == __v[r].vp_seq()[c] by { assert(0 * ncols == 0) by (nonlinear_arith); }
} }
@loop 0
invariant
__s0 == __v.skip(1) && __v.len() > 0,
nrows == __k0 + 1,
size == data@.len(),
rows_in(data@, __v, __k0 + 1, ncols as int),
@at loop0.begin
proof {
    assert(row == __v[__j0 + 1]);
    lemma_flat_take(__v, __j0 + 2); lemma_flat_take(__v, __j0 + 1);
    lemma_flat_prefix(data@, __v, __j0 + 1, ncols as int);
    if row.vp_seq().len() == ncols { lemma_rows_step(data@, __v, __j0 + 1, ncols as int); }
}
@exit
proof { lemma_has_rows(Matrix { order: Order::RowMajor, shape, data }, __v, ncols as int); }
