@file_props C10,C09,C01

@fn Matrix::swap
@requires
old(self).coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && zm.order == old(self).order && zm.shape == old(self).shape
        && exists|p: AxisIndex, q: AxisIndex| #[trigger] $0.vp_res(*old(self), Some(p)) && #[trigger] $1.vp_res(*old(self), Some(q)) && inside(old(self).shape, p) && inside(old(self).shape, q)
            && zm.data@ == exch(old(self).data@, flat(old(self).shape, p), flat(old(self).shape, q)),
    Err(e) => e == Error::IndexOutOfBounds && *final(self) == *old(self) && ($0.vp_res(*old(self), None) || $1.vp_res(*old(self), None)),
}, //@C10,C09,C01
@entry
proof { assert forall|p: AxisIndex| inside(self.shape, p) implies 0 <= #[trigger] flat(self.shape, p) < self.data@.len() by { lemma_flat(self.shape, p); } }

@fn Matrix::swap_rows
@requires
old(self).coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && $0 < old(self).nr() && $1 < old(self).nr() && rows_swapped(*old(self), *zm, $0 as int, $1 as int),
    Err(e) => e == Error::IndexOutOfBounds && *final(self) == *old(self) && !($0 < old(self).nr() && $1 < old(self).nr()),
}, //@C10,C09,C01
@fn Matrix::swap_cols
@requires
old(self).coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && $0 < old(self).nc() && $1 < old(self).nc() && cols_swapped(*old(self), *zm, $0 as int, $1 as int),
    Err(e) => e == Error::IndexOutOfBounds && *final(self) == *old(self) && !($0 < old(self).nc() && $1 < old(self).nc()),
}, //@C10,C09,C01

@fn Matrix::swap_major_axis_vectors
@requires
old(self).coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && $0 < old(self).shape.major && $1 < old(self).shape.major && zm.order == old(self).order && zm.shape == old(self).shape
        && (if old(self).order == Order::RowMajor { rows_swapped(*old(self), *zm, $0 as int, $1 as int) } else { cols_swapped(*old(self), *zm, $0 as int, $1 as int) }),
    Err(e) => e == Error::IndexOutOfBounds && *final(self) == *old(self) && !($0 < old(self).shape.major && $1 < old(self).shape.major),
}, //@C10,C09,C01
@entry
proof {
    if $0 < self.shape.major && $1 < self.shape.major {
        let (a, b, ma, mi) = ($0 as int, $1 as int, self.shape.major as int, self.shape.minor as int);
        assert(a * mi + mi <= ma * mi && b * mi + mi <= ma * mi && a * mi >= 0 && b * mi >= 0) by (nonlinear_arith) requires 0 <= a < ma, 0 <= b < ma, mi >= 0;
        assert(a * mi + mi <= b * mi || b * mi + mi <= a * mi || a == b) by (nonlinear_arith) requires mi >= 0;
        assert forall|d: Seq<T>| d == self.data@ && a == b implies sw_major(self.data@, d, a, b, ma, mi) by { }
    }
}
@exit
proof { lemma_sw_major(old(self).data@, self.data@, $0 as int, $1 as int, self.shape.major as int, self.shape.minor as int); lemma_swapped(*old(self), *self, $0 as int, $1 as int); }

@fn Matrix::swap_minor_axis_vectors
@requires
old(self).coh(),
@ensures
match ret {
    Ok(zm) => *final(self) == *final(zm) && $0 < old(self).shape.minor && $1 < old(self).shape.minor && zm.order == old(self).order && zm.shape == old(self).shape
        && (if old(self).order == Order::RowMajor { cols_swapped(*old(self), *zm, $0 as int, $1 as int) } else { rows_swapped(*old(self), *zm, $0 as int, $1 as int) }),
    Err(e) => e == Error::IndexOutOfBounds && *final(self) == *old(self) && !($0 < old(self).shape.minor && $1 < old(self).shape.minor),
}, //@C10,C09,C01
@at let:k
let ghost __d = self.data@;
proof {
    lemma_pos_bound(k as int, $0 as int, self.shape.major as int, self.shape.minor as int);
    lemma_pos_bound(k as int, $1 as int, self.shape.major as int, self.shape.minor as int);
}
@loop 0
invariant
self.order == old(self).order && self.shape == old(self).shape,
sw_minor(old(self).data@, self.data@, __k0, $0 as int, $1 as int, self.shape.major as int, self.shape.minor as int),
@at loop0.end
proof { lemma_sw_minor(old(self).data@, __d, self.data@, k as int, $0 as int, $1 as int, self.shape.major as int, self.shape.minor as int); }
@exit
proof { lemma_swapped(*old(self), *self, $0 as int, $1 as int); }
