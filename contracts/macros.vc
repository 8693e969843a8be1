@file_props C19

@fn macro_matrix_empty
@ensures
ret.coh() && ret.nr() == 0 && ret.nc() == 0,
@fn macro_matrix_fill
@panics_when $1 * $2 > usize::MAX || !fits::<T>($1 * $2)
@ensures
ret.coh() && ret.nr() == $1 && ret.nc() == $2,
forall|r: int, c: int| #[trigger] ret.inlog(r, c) ==> copies($0, ret.at(r, c)),
@entry
broadcast use axiom_into_self, lemma_inlog;
proof { assert($1 * $2 == $2 * $1) by (nonlinear_arith); }
@fn macro_matrix_repeat1
@requires
$1 * 1 <= usize::MAX && fits::<T>($1 * 1),
@ensures
ret.coh() && ret.nr() == $1 && ret.nc() == 1,
forall|r: int| #[trigger] ret.inlog(r, 0) ==> copied(ret, r, 0, $0),
@fn macro_matrix_repeat3
@requires
$3 * 3 <= usize::MAX && fits::<T>($3 * 3),
@ensures
ret.coh() && ret.nr() == $3 && ret.nc() == 3,
forall|r: int, k: int| #[trigger] ret.inlog(r, k) ==> copies(seq![$0, $1, $2][k], ret.at(r, k)),
@entry
proof {
    let v = [$0, $1, $2];
    assert(v@ =~= seq![$0, $1, $2]);
}
@fn macro_matrix_1x1
@requires
fits::<T>(1),
@ensures
has_rows(ret, seq![seq![$0]], 1),
@entry
proof {
    let v = [[$0]];
    assert(v@[0]@ =~= seq![$0]);
    assert(arr_seqs(v@) =~= seq![seq![$0]]);
}
@fn macro_matrix_1x3
@requires
fits::<T>(3),
@ensures
has_rows(ret, seq![seq![$0, $1, $2]], 3),
@entry
proof {
    let v = [[$0, $1, $2]];
    assert(v@[0]@ =~= seq![$0, $1, $2]);
    assert(arr_seqs(v@) =~= seq![seq![$0, $1, $2]]);
}
@fn macro_matrix_3x1
@requires
fits::<T>(3),
@ensures
has_rows(ret, seq![seq![$0], seq![$1], seq![$2]], 1),
@entry
proof {
    let v = [[$0], [$1], [$2]];
    assert(v@[0]@ =~= seq![$0]);
    assert(v@[1]@ =~= seq![$1]);
    assert(v@[2]@ =~= seq![$2]);
    assert(arr_seqs(v@) =~= seq![seq![$0], seq![$1], seq![$2]]);
}
@fn macro_matrix_2x3
@requires
fits::<T>(6),
@ensures
has_rows(ret, seq![seq![$0, $1, $2], seq![$3, $4, $5]], 3),
@entry
proof {
    let v = [[$0, $1, $2], [$3, $4, $5]];
    assert(v@[0]@ =~= seq![$0, $1, $2]);
    assert(v@[1]@ =~= seq![$3, $4, $5]);
    assert(arr_seqs(v@) =~= seq![seq![$0, $1, $2], seq![$3, $4, $5]]);
}
@fn macro_matrix_3x2
@requires
fits::<T>(6),
@ensures
has_rows(ret, seq![seq![$0, $1], seq![$2, $3], seq![$4, $5]], 2),
@entry
proof {
    let v = [[$0, $1], [$2, $3], [$4, $5]];
    assert(v@[0]@ =~= seq![$0, $1]);
    assert(v@[1]@ =~= seq![$2, $3]);
    assert(v@[2]@ =~= seq![$4, $5]);
    assert(arr_seqs(v@) =~= seq![seq![$0, $1], seq![$2, $3], seq![$4, $5]]);
}
@fn macro_row_empty
@ensures
ret.coh() && ret.nr() == 1 && ret.nc() == 0,
@entry
broadcast use axiom_into_self;
@fn macro_row_fill
@ensures
ret.coh() && ret.nr() == 1 && ret.nc() == $1,
forall|c: int| #[trigger] ret.inlog(0, c) ==> copied(ret, 0, c, $0),
@entry
broadcast use axiom_into_self;
@fn macro_row_1
@ensures
ret.coh() && ret.nr() == 1 && ret.nc() == 1,
holds(ret, 0, 0, $0),
@entry
broadcast use axiom_into_self;
@fn macro_row_3
@ensures
ret.coh() && ret.nr() == 1 && ret.nc() == 3,
holds(ret, 0, 0, $0),
holds(ret, 0, 1, $1),
holds(ret, 0, 2, $2),
@entry
broadcast use axiom_into_self;
@fn macro_col_empty
@ensures
ret.coh() && ret.nr() == 0 && ret.nc() == 1,
@entry
broadcast use axiom_into_self;
@fn macro_col_fill
@ensures
ret.coh() && ret.nr() == $1 && ret.nc() == 1,
forall|r: int| #[trigger] ret.inlog(r, 0) ==> copied(ret, r, 0, $0),
@entry
broadcast use axiom_into_self;
@fn macro_col_1
@ensures
ret.coh() && ret.nr() == 1 && ret.nc() == 1,
holds(ret, 0, 0, $0),
@entry
broadcast use axiom_into_self;
@fn macro_col_3
@ensures
ret.coh() && ret.nr() == 3 && ret.nc() == 1,
holds(ret, 0, 0, $0),
holds(ret, 1, 0, $1),
holds(ret, 2, 0, $2),
@entry
broadcast use axiom_into_self;
