@file_props C20

@fn <Lines as Iterator>::next
@ensures
lview(*old(self)).len() > 0 ==> ret is Some && ret.unwrap()@ == lview(*old(self))[0] && lview(*final(self)) == lview(*old(self)).skip(1),
lview(*old(self)).len() == 0 ==> ret is None && lview(*final(self)) == lview(*old(self)),
@entry
let ghost old0 = *self;
proof { if old0.0@.len() > 0 { assert(texts(old0.0@.drop_first()) =~= texts(old0.0@).skip(1)); assert(old0.0@.skip(1) =~= old0.0@.drop_first()); } }

@fn <Lines as Iterator>::size_hint
@ensures
ret.0 == lview(*self).len(),
ret.1 == Some(ret.0),

@fn <Lines as ExactSizeIterator>::len
@ensures
ret == lview(*self).len(),

@fn Lines::height
@ensures
ret == lview(*self).len(),

@fn Lines::width
@ensures
ret == width_of(lview(*self)),
@loop 0
invariant
  __k0 == 0 ==> __out0 is None,
  __k0 > 0 ==> __out0 is Some && __out0.unwrap() == wmax(lview(*self), __k0),
@at loop0.end
proof {
    assert(lview(*self)[__j0] == __x0@);
    assert(__y0_0 == __x0@.len());
    assert(wmax(lview(*self), __k0) == (if lview(*self)[__j0].len() > wmax(lview(*self), __j0) { lview(*self)[__j0].len() as int } else { wmax(lview(*self), __j0) }));
}

@fn Lines::from_display
@ensures
lview(ret) == lines_of($0.disp()),
@at loop0.pre
let ghost ls = lines_of($0.disp());
@loop 0
invariant
  __s0.len() == ls.len(),
  texts(__out0@) == ls.take(__k0),
@at loop0.begin
let ghost o0 = __out0@;
@at loop0.end
proof { assert(__out0@ == o0.push(__y0_0)); assert(texts(__out0@) =~= texts(o0).push(ls[__j0])); assert(ls.take(__k0) =~= ls.take(__j0).push(ls[__j0])); }
@at loop0.init
proof { assert(texts(__out0@) =~= ls.take(0)); }
@at loop0.post
proof { assert(ls.take(__k0) =~= ls); }

@fn Lines::from_debug
@ensures
lview(ret) == lines_of($0.dbg()),
@at loop0.pre
let ghost ls = lines_of($0.dbg());
@loop 0
invariant
  __s0.len() == ls.len(),
  texts(__out0@) == ls.take(__k0),
@at loop0.begin
let ghost o0 = __out0@;
@at loop0.end
proof { assert(__out0@ == o0.push(__y0_0)); assert(texts(__out0@) =~= texts(o0).push(ls[__j0])); assert(ls.take(__k0) =~= ls.take(__j0).push(ls[__j0])); }
@at loop0.init
proof { assert(texts(__out0@) =~= ls.take(0)); }
@at loop0.post
proof { assert(ls.take(__k0) =~= ls); }

@fn write_padded
@ensures
ret is Ok ==> final($0)@ == old($0)@ + pad_r($1@, $2 as int),
@entry
proof { reveal(pad_r); reveal(sp); assert(forall|a: Seq<char>| #![trigger fcat(a, sp(0))] fcat(a, sp(0)) =~= a); assert(forall|a: Seq<char>, b: Seq<char>| fcat(a, b) =~= a + b); }

@fn <Matrix<T> as Display>::fmt
@requires
$0.coh(),
@ensures
ret is Ok ==> final($1)@ == old($1)@ + disp_text($0), //@C20
@entry
broadcast use {lemma_assoc, lemma_cat_empty};
let ghost l = disp_layout($0);
let ghost f0 = $1@;
proof { lemma_ext0(l.tx); }
@loop 0
invariant
  cache@.len() == __k0,
  element_width == ew(l.tx, __k0),
  element_hight == eh(l.tx, __k0),
  forall|i: int| 0 <= i < __k0 ==> lview(#[trigger] cache@[i]) == l.tx[i],
@at loop0.begin
proof { lemma_ext(l.tx, __j0); }
@at loop1.pre
proof { lemma_cstate_init(cache@, l); l.lemma_rows(0); reveal(VpText::header); reveal(VpText::height); }
let ghost t0 = f0 + LEFT_DELIMITER@ + "\n"@ + l.header();
@loop 1
invariant
  $1@ == t0 + l.rows(__k1),
  cstate(cache@, l, __k1, 0, 0),
@at loop1.begin
let ghost b1 = $1@;
@at loop2.pre
let ghost b2 = $1@;
proof { l.lemma_cells(__j1, 0, 0); assert(b2 == b1 + l.head(__j1, 0)) by { reveal(VpText::head); } }
@loop 2
invariant
  $1@ == b2 + l.cells(__j1, 0, __k2),
  cstate(cache@, l, __j1, 0, __k2),
@at loop2.begin
let ghost c2 = cache@;
proof { lemma_cache_len(c2, l, __j1, 0, __j2); lemma_drained(l.tx[l.p(__j1, __j2)], 0); l.lemma_cells(__j1, 0, __j2); }
@at loop2.end
proof { lemma_cstate_next(c2, cache@, l, __j1, 0, __j2); }
@at loop3.pre
proof {
    lemma_cstate_line(cache@, l, __j1, 0);
    l.lemma_line(__j1, 0);
    l.lemma_row(__j1, 0);
    assert($1@ == b1 + l.row(__j1, 1));
}
@loop 3
invariant
  $1@ == b1 + l.row(__j1, 1 + __k3),
  cstate(cache@, l, __j1, 1 + __k3, 0),
  cstate(cache@, l, __j1 + 1, 0, 0),
@at loop3.begin
let ghost b3 = $1@;
@at loop4.pre
let ghost b4 = $1@;
proof { l.lemma_cells(__j1, 1 + __j3, 0); assert(b4 == b3 + l.head(__j1, 1 + __j3)) by { reveal(VpText::head); } }
@loop 4
invariant
  $1@ == b4 + l.cells(__j1, 1 + __j3, __k4),
  cstate(cache@, l, __j1, 1 + __j3, __k4),
@at loop4.begin
let ghost c4 = cache@;
proof { lemma_cache_len(c4, l, __j1, 1 + __j3, __j4); lemma_drained(l.tx[l.p(__j1, __j4)], 1 + __j3); l.lemma_cells(__j1, 1 + __j3, __j4); }
@at loop4.end
proof { lemma_cstate_next(c4, cache@, l, __j1, 1 + __j3, __j4); }
@at loop3.end
proof {
    lemma_cstate_line(cache@, l, __j1, 1 + __j3);
    l.lemma_line(__j1, 1 + __j3);
    l.lemma_row(__j1, 1 + __j3);
    assert($1@ == b3 + l.line(__j1, 1 + __j3));
}
@at loop1.end
proof { l.lemma_rows(__j1); }
@exit
proof { reveal(VpText::text); }

@fn <Matrix<T> as Debug>::fmt
@requires
$0.coh(),
@ensures
ret is Ok ==> final($1)@ == old($1)@ + dbg_text($0), //@C20
@entry
broadcast use {lemma_assoc, lemma_cat_empty};
let ghost l = dbg_layout($0);
let ghost f0 = $1@;
proof { lemma_ext0(l.tx); lemma_dec_usize($0.data@.len() as usize); }
@loop 0
invariant
  cache@.len() == __k0,
  element_width == ew(l.tx, __k0),
  element_hight == eh(l.tx, __k0),
  forall|i: int| 0 <= i < __k0 ==> lview(#[trigger] cache@[i]) == l.tx[i],
@at loop0.begin
proof { lemma_ext(l.tx, __j0); }
@at loop1.pre
let ghost h0 = $1@;
proof { l.lemma_hcells(0); }
@loop 1
invariant
  $1@ == h0 + l.hcells(__k1),
@at loop1.begin
proof { l.lemma_hcells(__j1); }
@at loop2.pre
proof { lemma_cstate_init(cache@, l); l.lemma_rows(0); reveal(VpText::header); reveal(VpText::height); }
let ghost t0 = f0 + LEFT_DELIMITER@ + "\n"@ + l.header();
@loop 2
invariant
  $1@ == t0 + l.rows(__k2),
  cstate(cache@, l, __k2, 0, 0),
@at loop2.begin
let ghost b2 = $1@;
@at loop3.pre
let ghost b3 = $1@;
proof { l.lemma_cells(__j2, 0, 0); assert(b3 == b2 + l.head(__j2, 0)) by { reveal(VpText::head); } }
@loop 3
invariant
  $1@ == b3 + l.cells(__j2, 0, __k3),
  cstate(cache@, l, __j2, 0, __k3),
@at loop3.begin
let ghost c3 = cache@;
proof { lemma_cache_len(c3, l, __j2, 0, __j3); lemma_drained(l.tx[l.p(__j2, __j3)], 0); l.lemma_cells(__j2, 0, __j3); }
@at loop3.end
proof { lemma_cstate_next(c3, cache@, l, __j2, 0, __j3); }
@at loop4.pre
proof {
    lemma_cstate_line(cache@, l, __j2, 0);
    l.lemma_line(__j2, 0);
    l.lemma_row(__j2, 0);
    assert($1@ == b2 + l.row(__j2, 1));
}
@loop 4
invariant
  $1@ == b2 + l.row(__j2, 1 + __k4),
  cstate(cache@, l, __j2, 1 + __k4, 0),
  cstate(cache@, l, __j2 + 1, 0, 0),
@at loop4.begin
let ghost b4 = $1@;
@at loop5.pre
let ghost b5 = $1@;
proof { l.lemma_cells(__j2, 1 + __j4, 0); assert(b5 == b4 + l.head(__j2, 1 + __j4)) by { reveal(VpText::head); } }
@loop 5
invariant
  $1@ == b5 + l.cells(__j2, 1 + __j4, __k5),
  cstate(cache@, l, __j2, 1 + __j4, __k5),
@at loop5.begin
let ghost c5 = cache@;
proof { lemma_cache_len(c5, l, __j2, 1 + __j4, __j5); lemma_drained(l.tx[l.p(__j2, __j5)], 1 + __j4); l.lemma_cells(__j2, 1 + __j4, __j5); }
@at loop5.end
proof { lemma_cstate_next(c5, cache@, l, __j2, 1 + __j4, __j5); }
@at loop4.end
proof {
    lemma_cstate_line(cache@, l, __j2, 1 + __j4);
    l.lemma_line(__j2, 1 + __j4);
    l.lemma_row(__j2, 1 + __j4);
    assert($1@ == b4 + l.line(__j2, 1 + __j4));
}
@at loop2.end
proof { l.lemma_rows(__j2); }
@exit
proof { reveal(VpText::text); }

@fn <Matrix<T> as Debug>::fmt#pretty
@like <Matrix<T> as Debug>::fmt
@requires
!vp_colours(),
