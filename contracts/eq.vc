@file_props C07
@fn <Matrix<T> as PartialEq>::eq
@requires
self.coh() && $0.coh(),
@ensures
meq(*self, *$0, ret), //@C07
@entry
proof { lemma_meq_conf(*self, *$0); }
@loop 0
invariant
__s0.len() == self.data@.len(),
self.order != $0.order && conf(*self, *$0),
forall|i: int| 0 <= i < __s0.len() ==> #[trigger] __s0[i] == (i as usize, &self.data@[i]),
__out0 ==> forall|i: int| 0 <= i < __k0 ==> eq_rel(#[trigger] self.data@[i], peer(*self, *$0, i), true),
!__out0 ==> exists|i: int| 0 <= i < __k0 && eq_rel(#[trigger] self.data@[i], peer(*self, *$0, i), false),
@at loop0.begin
proof { assert(__x0 == __s0[__j0]); lemma_peer(*self, *$0, __j0); }
