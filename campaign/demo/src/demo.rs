use crate::{abi::*, bank::Env, play::*};
pub fn demo(env: &Env) {
    let mut p = Play::new(env, 3);
    let (s, ok) = p.create(&args(PRORATA, 120, 10, vec![reg(1, 100, 1000, 1500)]), 0, 1, None);
    assert!(ok);
    let us = p.w.users.clone();
    let es: Vec<_> = us.iter().map(|u| { let (e, ok) = p.open(&s, *u); assert!(ok); assert!(p.deposit(&s, e, *u, 50)); e }).collect();
    p.at(T0 + 1000);
    for i in 0..3 { assert!(p.refund(&s, es[i], us[i])); }
    assert!(p.creator_withdraw(&s, false, s.creator));
    assert!(p.collect_fee(&s, s.creator), "the vault cannot pay the creator's fee any more");
}
