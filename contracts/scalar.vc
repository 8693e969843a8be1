@file_props C18

@fn scalar::add::M_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Add<S>>::add, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Add<S>>::add, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Add<S>>::add, ($c0, *$c1), u)

@fn scalar::add::rM_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Add<S>>::add, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Add<S>>::add, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Add<S>>::add, (*$c0, *$c1), u)

@fn scalar::add::s_M
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Add<E>>::add, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Add<E>>::add, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Add<E>>::add, (*$c1, $c0), u)

@fn scalar::add::s_rM
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Add<E>>::add, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Add<E>>::add, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Add<E>>::add, (*$c1, *$c0), u)

@fn scalar::add_assign::M_s
@requires
old($0).coh(),
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C18,C01
forall|i: int| 0 <= i < final($0).data@.len() ==> add_assign_of(old($0).data@[i], $1, #[trigger] final($0).data@[i]), //@C18
@closure 0
|$c0: &mut E, $c1: &S| ensures add_assign_of(*old($c0), *$c1, *final($c0))

@fn scalar::sub::M_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Sub<S>>::sub, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Sub<S>>::sub, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Sub<S>>::sub, ($c0, *$c1), u)

@fn scalar::sub::rM_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Sub<S>>::sub, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Sub<S>>::sub, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Sub<S>>::sub, (*$c0, *$c1), u)

@fn scalar::sub::s_M
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Sub<E>>::sub, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Sub<E>>::sub, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Sub<E>>::sub, (*$c1, $c0), u)

@fn scalar::sub::s_rM
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Sub<E>>::sub, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Sub<E>>::sub, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Sub<E>>::sub, (*$c1, *$c0), u)

@fn scalar::sub_assign::M_s
@requires
old($0).coh(),
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C18,C01
forall|i: int| 0 <= i < final($0).data@.len() ==> sub_assign_of(old($0).data@[i], $1, #[trigger] final($0).data@[i]), //@C18
@closure 0
|$c0: &mut E, $c1: &S| ensures sub_assign_of(*old($c0), *$c1, *final($c0))

@fn scalar::mul::M_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Mul<S>>::mul, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Mul<S>>::mul, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Mul<S>>::mul, ($c0, *$c1), u)

@fn scalar::mul::rM_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Mul<S>>::mul, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Mul<S>>::mul, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Mul<S>>::mul, (*$c0, *$c1), u)

@fn scalar::mul::s_M
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Mul<E>>::mul, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Mul<E>>::mul, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Mul<E>>::mul, (*$c1, $c0), u)

@fn scalar::mul::s_rM
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Mul<E>>::mul, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Mul<E>>::mul, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Mul<E>>::mul, (*$c1, *$c0), u)

@fn scalar::mul_assign::M_s
@requires
old($0).coh(),
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C18,C01
forall|i: int| 0 <= i < final($0).data@.len() ==> mul_assign_of(old($0).data@[i], $1, #[trigger] final($0).data@[i]), //@C18
@closure 0
|$c0: &mut E, $c1: &S| ensures mul_assign_of(*old($c0), *$c1, *final($c0))

@fn scalar::div::M_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Div<S>>::div, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Div<S>>::div, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Div<S>>::div, ($c0, *$c1), u)

@fn scalar::div::rM_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Div<S>>::div, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Div<S>>::div, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Div<S>>::div, (*$c0, *$c1), u)

@fn scalar::div::s_M
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Div<E>>::div, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Div<E>>::div, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Div<E>>::div, (*$c1, $c0), u)

@fn scalar::div::s_rM
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Div<E>>::div, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Div<E>>::div, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Div<E>>::div, (*$c1, *$c0), u)

@fn scalar::div_assign::M_s
@requires
old($0).coh(),
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C18,C01
forall|i: int| 0 <= i < final($0).data@.len() ==> div_assign_of(old($0).data@[i], $1, #[trigger] final($0).data@[i]), //@C18
@closure 0
|$c0: &mut E, $c1: &S| ensures div_assign_of(*old($c0), *$c1, *final($c0))

@fn scalar::rem::M_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Rem<S>>::rem, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Rem<S>>::rem, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Rem<S>>::rem, ($c0, *$c1), u)

@fn scalar::rem::rM_s
@requires
$0.coh(),
forall|x: E, y: S| #[trigger] call_requires(<E as core::ops::Rem<S>>::rem, (x, y)),
@panics_when !fits::<U>($0.data@.len() as int)
@ensures
fits::<U>($0.data@.len() as int) && ret.order == $0.order && ret.shape == $0.shape && ret.data@.len() == $0.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<E as core::ops::Rem<S>>::rem, ($0.data@[i], $1), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<E as core::ops::Rem<S>>::rem, (*$c0, *$c1), u)

@fn scalar::rem::s_M
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Rem<E>>::rem, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Rem<E>>::rem, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Rem<E>>::rem, (*$c1, $c0), u)

@fn scalar::rem::s_rM
@requires
$1.coh(),
forall|x: S, y: E| #[trigger] call_requires(<S as core::ops::Rem<E>>::rem, (x, y)),
@panics_when !fits::<U>($1.data@.len() as int)
@ensures
fits::<U>($1.data@.len() as int) && ret.order == $1.order && ret.shape == $1.shape && ret.data@.len() == $1.data@.len(), //@C18,C08,C01
forall|i: int| 0 <= i < ret.data@.len() ==> call_ensures(<S as core::ops::Rem<E>>::rem, ($0, $1.data@[i]), #[trigger] ret.data@[i]), //@C18
@closure 0
|$c0: &E, $c1: &S| -> (u: U) ensures call_ensures(<S as core::ops::Rem<E>>::rem, (*$c1, *$c0), u)

@fn scalar::rem_assign::M_s
@requires
old($0).coh(),
@ensures
final($0).order == old($0).order && final($0).shape == old($0).shape && final($0).data@.len() == old($0).data@.len(), //@C18,C01
forall|i: int| 0 <= i < final($0).data@.len() ==> rem_assign_of(old($0).data@[i], $1, #[trigger] final($0).data@[i]), //@C18
@closure 0
|$c0: &mut E, $c1: &S| ensures rem_assign_of(*old($c0), *$c1, *final($c0))
