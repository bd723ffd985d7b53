//! Closures of every mix of captures (written by tools/gen_witness_lambda.py). Nothing here is run: what the macro makes of
//! them is analysed. The functions of `user` stand for the bodies.
#![allow(dead_code, unused_variables, unused_mut, clippy::all)]
use crossmist::{lambda, FnMutObject, FnObject, FnOnceObject};

pub mod user {
    #[inline(never)]
    pub fn once_none0() -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_none0() -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_none0() -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_none0() -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_none1(a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_none1(a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_none1(a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_none1(a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_none2(a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_none2(a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_none2(a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_none2(a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_v0(c0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_v0(c0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_v0(c0: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_v0(c0: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_v1(c0: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_v1(c0: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_v1(c0: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_v1(c0: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_v1(c0: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_v1(c0: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynref_v1(c0: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_v2(c0: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_v2(c0: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_v2(c0: char, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_v2(c0: char, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_m0(c0: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_m0(c0: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_m0(c0: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_m1(c0: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_m1(c0: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_m1(c0: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_m1(c0: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_m1(c0: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_m2(c0: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_m2(c0: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_m2(c0: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_r0(c0: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_r0(c0: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_r0(c0: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_r0(c0: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_r1(c0: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_r1(c0: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_r1(c0: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_r1(c0: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_r1(c0: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_r1(c0: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynref_r1(c0: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_r2(c0: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_r2(c0: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_r2(c0: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_r2(c0: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vv0(c0: String, c1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vv0(c0: String, c1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vv0(c0: char, c1: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vv0(c0: char, c1: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vv1(c0: String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vv1(c0: String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vv1(c0: char, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vv1(c0: char, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_vv1(c0: String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_vv1(c0: char, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynref_vv1(c0: char, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vv2(c0: String, c1: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vv2(c0: String, c1: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vv2(c0: char, c1: char, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vv2(c0: char, c1: char, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vm0(c0: String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vm0(c0: String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vm0(c0: char, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vm1(c0: String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vm1(c0: String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vm1(c0: char, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_vm1(c0: String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_vm1(c0: char, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vm2(c0: String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vm2(c0: String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vm2(c0: char, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vr0(c0: String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vr0(c0: String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vr0(c0: char, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vr0(c0: char, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vr1(c0: String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vr1(c0: String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vr1(c0: char, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vr1(c0: char, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_vr1(c0: String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_vr1(c0: char, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynref_vr1(c0: char, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vr2(c0: String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vr2(c0: String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vr2(c0: char, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vr2(c0: char, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mv0(c0: &mut String, c1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mv0(c0: &mut String, c1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mv0(c0: &mut String, c1: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mv1(c0: &mut String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mv1(c0: &mut String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mv1(c0: &mut String, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_mv1(c0: &mut String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_mv1(c0: &mut String, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mv2(c0: &mut String, c1: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mv2(c0: &mut String, c1: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mv2(c0: &mut String, c1: char, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mm0(c0: &mut String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mm0(c0: &mut String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mm0(c0: &mut String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mm1(c0: &mut String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mm1(c0: &mut String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mm1(c0: &mut String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_mm1(c0: &mut String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_mm1(c0: &mut String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mm2(c0: &mut String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mm2(c0: &mut String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mm2(c0: &mut String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mr0(c0: &mut String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mr0(c0: &mut String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mr0(c0: &mut String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mr1(c0: &mut String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mr1(c0: &mut String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mr1(c0: &mut String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_mr1(c0: &mut String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_mr1(c0: &mut String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mr2(c0: &mut String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mr2(c0: &mut String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mr2(c0: &mut String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rv0(c0: &String, c1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rv0(c0: &String, c1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rv0(c0: &String, c1: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rv0(c0: &String, c1: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rv1(c0: &String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rv1(c0: &String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rv1(c0: &String, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rv1(c0: &String, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_rv1(c0: &String, c1: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_rv1(c0: &String, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynref_rv1(c0: &String, c1: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rv2(c0: &String, c1: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rv2(c0: &String, c1: String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rv2(c0: &String, c1: char, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rv2(c0: &String, c1: char, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rm0(c0: &String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rm0(c0: &String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rm0(c0: &String, c1: &mut String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rm1(c0: &String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rm1(c0: &String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rm1(c0: &String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_rm1(c0: &String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_rm1(c0: &String, c1: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rm2(c0: &String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rm2(c0: &String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rm2(c0: &String, c1: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rr0(c0: &String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rr0(c0: &String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rr0(c0: &String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rr0(c0: &String, c1: &String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rr1(c0: &String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rr1(c0: &String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rr1(c0: &String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rr1(c0: &String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dyn_rr1(c0: &String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynmut_rr1(c0: &String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn dynref_rr1(c0: &String, c1: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rr2(c0: &String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rr2(c0: &String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rr2(c0: &String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rr2(c0: &String, c1: &String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vvv1(c0: String, c1: String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vvv1(c0: String, c1: String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vvv1(c0: char, c1: char, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vvv1(c0: char, c1: char, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vvm1(c0: String, c1: String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vvm1(c0: String, c1: String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vvm1(c0: char, c1: char, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vvr1(c0: String, c1: String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vvr1(c0: String, c1: String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vvr1(c0: char, c1: char, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vvr1(c0: char, c1: char, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vmv1(c0: String, c1: &mut String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vmv1(c0: String, c1: &mut String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vmv1(c0: char, c1: &mut String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vmm1(c0: String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vmm1(c0: String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vmm1(c0: char, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vmr1(c0: String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vmr1(c0: String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vmr1(c0: char, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vrv1(c0: String, c1: &String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vrv1(c0: String, c1: &String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vrv1(c0: char, c1: &String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vrv1(c0: char, c1: &String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vrm1(c0: String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vrm1(c0: String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vrm1(c0: char, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vrr1(c0: String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vrr1(c0: String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vrr1(c0: char, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vrr1(c0: char, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mvv1(c0: &mut String, c1: String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mvv1(c0: &mut String, c1: String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mvv1(c0: &mut String, c1: char, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mvm1(c0: &mut String, c1: String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mvm1(c0: &mut String, c1: String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mvm1(c0: &mut String, c1: char, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mvr1(c0: &mut String, c1: String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mvr1(c0: &mut String, c1: String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mvr1(c0: &mut String, c1: char, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mmv1(c0: &mut String, c1: &mut String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mmv1(c0: &mut String, c1: &mut String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mmv1(c0: &mut String, c1: &mut String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mmm1(c0: &mut String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mmm1(c0: &mut String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mmm1(c0: &mut String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mmr1(c0: &mut String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mmr1(c0: &mut String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mmr1(c0: &mut String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mrv1(c0: &mut String, c1: &String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mrv1(c0: &mut String, c1: &String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mrv1(c0: &mut String, c1: &String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mrm1(c0: &mut String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mrm1(c0: &mut String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mrm1(c0: &mut String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mrr1(c0: &mut String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mrr1(c0: &mut String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mrr1(c0: &mut String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rvv1(c0: &String, c1: String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rvv1(c0: &String, c1: String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rvv1(c0: &String, c1: char, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rvv1(c0: &String, c1: char, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rvm1(c0: &String, c1: String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rvm1(c0: &String, c1: String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rvm1(c0: &String, c1: char, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rvr1(c0: &String, c1: String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rvr1(c0: &String, c1: String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rvr1(c0: &String, c1: char, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rvr1(c0: &String, c1: char, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rmv1(c0: &String, c1: &mut String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rmv1(c0: &String, c1: &mut String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rmv1(c0: &String, c1: &mut String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rmm1(c0: &String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rmm1(c0: &String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rmm1(c0: &String, c1: &mut String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rmr1(c0: &String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rmr1(c0: &String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rmr1(c0: &String, c1: &mut String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rrv1(c0: &String, c1: &String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rrv1(c0: &String, c1: &String, c2: String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rrv1(c0: &String, c1: &String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rrv1(c0: &String, c1: &String, c2: char, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rrm1(c0: &String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rrm1(c0: &String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rrm1(c0: &String, c1: &String, c2: &mut String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rrr1(c0: &String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rrr1(c0: &String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rrr1(c0: &String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rrr1(c0: &String, c1: &String, c2: &String, a0: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vmrvm3(c0: String, c1: &mut String, c2: &String, c3: String, c4: &mut String, a0: String, a1: String, a2: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vmrvm3(c0: String, c1: &mut String, c2: &String, c3: String, c4: &mut String, a0: String, a1: String, a2: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vmrvm3(c0: char, c1: &mut String, c2: &String, c3: char, c4: &mut String, a0: String, a1: String, a2: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rrvvmm2(c0: &String, c1: &String, c2: String, c3: String, c4: &mut String, c5: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rrvvmm2(c0: &String, c1: &String, c2: String, c3: String, c4: &mut String, c5: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rrvvmm2(c0: &String, c1: &String, c2: char, c3: char, c4: &mut String, c5: &mut String, a0: String, a1: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_vvvvvvvv0(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_vvvvvvvv0(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_vvvvvvvv0(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_vvvvvvvv0(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_mmmmm5(c0: &mut String, c1: &mut String, c2: &mut String, c3: &mut String, c4: &mut String, a0: String, a1: String, a2: String, a3: String, a4: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_mmmmm5(c0: &mut String, c1: &mut String, c2: &mut String, c3: &mut String, c4: &mut String, a0: String, a1: String, a2: String, a3: String, a4: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_mmmmm5(c0: &mut String, c1: &mut String, c2: &mut String, c3: &mut String, c4: &mut String, a0: String, a1: String, a2: String, a3: String, a4: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_rvrvrvrv4(c0: &String, c1: String, c2: &String, c3: String, c4: &String, c5: String, c6: &String, c7: String, a0: String, a1: String, a2: String, a3: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_rvrvrvrv4(c0: &String, c1: String, c2: &String, c3: String, c4: &String, c5: String, c6: &String, c7: String, a0: String, a1: String, a2: String, a3: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_rvrvrvrv4(c0: &String, c1: char, c2: &String, c3: char, c4: &String, c5: char, c6: &String, c7: char, a0: String, a1: String, a2: String, a3: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_rvrvrvrv4(c0: &String, c1: char, c2: &String, c3: char, c4: &String, c5: char, c6: &String, c7: char, a0: String, a1: String, a2: String, a3: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_none7(a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn box_none7(a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn mut_none7(a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn ref_none7(a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn once_trailing(c0: String, c1: &String, a0: String) -> String {
        panic!()
    }
}

pub fn once_none0() -> String {
    let mut f = lambda! { || -> String { user::once_none0() } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_none0() -> String {
    let mut f = lambda! { || -> String { user::box_none0() } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_none0() -> (String, String, String) {
    let mut f = lambda! { || -> String { user::mut_none0() } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_none0() -> (String, String) {
    let mut f = lambda! { || -> String { user::ref_none0() } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_none1(a0_0: String) -> String {
    let mut f = lambda! { |a0: String| -> String { user::once_none1(a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_none1(a0_0: String) -> String {
    let mut f = lambda! { |a0: String| -> String { user::box_none1(a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_none1(a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { |a0: String| -> String { user::mut_none1(a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_none1(a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { |a0: String| -> String { user::ref_none1(a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_none2(a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { |a0: String, a1: String| -> String { user::once_none2(a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_none2(a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { |a0: String, a1: String| -> String { user::box_none2(a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_none2(a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { |a0: String, a1: String| -> String { user::mut_none2(a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn ref_none2(a0_0: String, a1_0: String, a0_1: String, a1_1: String) -> (String, String) {
    let mut f = lambda! { |a0: String, a1: String| -> String { user::ref_none2(a0, a1) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1));
    (r0, r1)
}
pub fn once_v0(c0: String) -> String {
    let mut f = lambda! { move(c0: String) || -> String { user::once_v0(c0) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_v0(c0: String) -> String {
    let mut f = lambda! { move(c0: String) || -> String { user::box_v0(c0) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_v0(c0: char) -> (String, String, String) {
    let mut f = lambda! { move(c0: char) || -> String { user::mut_v0(c0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_v0(c0: char) -> (String, String) {
    let mut f = lambda! { move(c0: char) || -> String { user::ref_v0(c0) } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_v1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String) |a0: String| -> String { user::once_v1(c0, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_v1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String) |a0: String| -> String { user::box_v1(c0, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_v1(c0: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char) |a0: String| -> String { user::mut_v1(c0, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_v1(c0: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char) |a0: String| -> String { user::ref_v1(c0, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn dyn_v1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String) |a0: String| -> String { user::dyn_v1(c0, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_v1(c0: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char) |a0: String| -> String { user::dynmut_v1(c0, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn dynref_v1(c0: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char) |a0: String| -> String { user::dynref_v1(c0, a0) } };
    let mut g: Box<dyn FnObject<(String,), Output = String>> = f;
    let r0 = g.call_object((a0_0,));
    let r1 = g.call_object((a0_1,));
    (r0, r1)
}
pub fn once_v2(c0: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String) |a0: String, a1: String| -> String { user::once_v2(c0, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_v2(c0: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String) |a0: String, a1: String| -> String { user::box_v2(c0, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_v2(c0: char, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char) |a0: String, a1: String| -> String { user::mut_v2(c0, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn ref_v2(c0: char, a0_0: String, a1_0: String, a0_1: String, a1_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char) |a0: String, a1: String| -> String { user::ref_v2(c0, a0, a1) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1));
    (r0, r1)
}
pub fn once_m0(c0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String) || -> String { user::once_m0(c0) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_m0(c0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String) || -> String { user::box_m0(c0) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_m0(c0: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String) || -> String { user::mut_m0(c0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn once_m1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String| -> String { user::once_m1(c0, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_m1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String| -> String { user::box_m1(c0, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_m1(c0: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String| -> String { user::mut_m1(c0, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn dyn_m1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String| -> String { user::dyn_m1(c0, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_m1(c0: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String| -> String { user::dynmut_m1(c0, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn once_m2(c0: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String, a1: String| -> String { user::once_m2(c0, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_m2(c0: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String, a1: String| -> String { user::box_m2(c0, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_m2(c0: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String) |a0: String, a1: String| -> String { user::mut_m2(c0, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn once_r0(c0: String) -> String {
    let mut f = lambda! { move(&c0: &String) || -> String { user::once_r0(c0) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_r0(c0: String) -> String {
    let mut f = lambda! { move(&c0: &String) || -> String { user::box_r0(c0) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_r0(c0: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String) || -> String { user::mut_r0(c0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_r0(c0: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String) || -> String { user::ref_r0(c0) } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_r1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String) |a0: String| -> String { user::once_r1(c0, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_r1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String) |a0: String| -> String { user::box_r1(c0, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_r1(c0: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String) |a0: String| -> String { user::mut_r1(c0, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_r1(c0: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String) |a0: String| -> String { user::ref_r1(c0, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn dyn_r1(c0: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String) |a0: String| -> String { user::dyn_r1(c0, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_r1(c0: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String) |a0: String| -> String { user::dynmut_r1(c0, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn dynref_r1(c0: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String) |a0: String| -> String { user::dynref_r1(c0, a0) } };
    let mut g: Box<dyn FnObject<(String,), Output = String>> = f;
    let r0 = g.call_object((a0_0,));
    let r1 = g.call_object((a0_1,));
    (r0, r1)
}
pub fn once_r2(c0: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String) |a0: String, a1: String| -> String { user::once_r2(c0, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_r2(c0: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String) |a0: String, a1: String| -> String { user::box_r2(c0, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_r2(c0: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String) |a0: String, a1: String| -> String { user::mut_r2(c0, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn ref_r2(c0: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String) |a0: String, a1: String| -> String { user::ref_r2(c0, a0, a1) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1));
    (r0, r1)
}
pub fn once_vv0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String) || -> String { user::once_vv0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_vv0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String) || -> String { user::box_vv0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_vv0(c0: char, c1: char) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, c1: char) || -> String { user::mut_vv0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_vv0(c0: char, c1: char) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char) || -> String { user::ref_vv0(c0, c1) } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_vv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String) |a0: String| -> String { user::once_vv1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String) |a0: String| -> String { user::box_vv1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vv1(c0: char, c1: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, c1: char) |a0: String| -> String { user::mut_vv1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_vv1(c0: char, c1: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char) |a0: String| -> String { user::ref_vv1(c0, c1, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn dyn_vv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String) |a0: String| -> String { user::dyn_vv1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_vv1(c0: char, c1: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char) |a0: String| -> String { user::dynmut_vv1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn dynref_vv1(c0: char, c1: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char) |a0: String| -> String { user::dynref_vv1(c0, c1, a0) } };
    let mut g: Box<dyn FnObject<(String,), Output = String>> = f;
    let r0 = g.call_object((a0_0,));
    let r1 = g.call_object((a0_1,));
    (r0, r1)
}
pub fn once_vv2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String) |a0: String, a1: String| -> String { user::once_vv2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_vv2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String) |a0: String, a1: String| -> String { user::box_vv2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_vv2(c0: char, c1: char, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, c1: char) |a0: String, a1: String| -> String { user::mut_vv2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn ref_vv2(c0: char, c1: char, a0_0: String, a1_0: String, a0_1: String, a1_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char) |a0: String, a1: String| -> String { user::ref_vv2(c0, c1, a0, a1) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1));
    (r0, r1)
}
pub fn once_vm0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String) || -> String { user::once_vm0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_vm0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String) || -> String { user::box_vm0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_vm0(c0: char, c1: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String) || -> String { user::mut_vm0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn once_vm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String) |a0: String| -> String { user::once_vm1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String) |a0: String| -> String { user::box_vm1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vm1(c0: char, c1: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String) |a0: String| -> String { user::mut_vm1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn dyn_vm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String) |a0: String| -> String { user::dyn_vm1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_vm1(c0: char, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String) |a0: String| -> String { user::dynmut_vm1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn once_vm2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::once_vm2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_vm2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::box_vm2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_vm2(c0: char, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String) |a0: String, a1: String| -> String { user::mut_vm2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn once_vr0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String) || -> String { user::once_vr0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_vr0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String) || -> String { user::box_vr0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_vr0(c0: char, c1: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) || -> String { user::mut_vr0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_vr0(c0: char, c1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) || -> String { user::ref_vr0(c0, c1) } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_vr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String) |a0: String| -> String { user::once_vr1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String) |a0: String| -> String { user::box_vr1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vr1(c0: char, c1: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) |a0: String| -> String { user::mut_vr1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_vr1(c0: char, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) |a0: String| -> String { user::ref_vr1(c0, c1, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn dyn_vr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String) |a0: String| -> String { user::dyn_vr1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_vr1(c0: char, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) |a0: String| -> String { user::dynmut_vr1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn dynref_vr1(c0: char, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) |a0: String| -> String { user::dynref_vr1(c0, c1, a0) } };
    let mut g: Box<dyn FnObject<(String,), Output = String>> = f;
    let r0 = g.call_object((a0_0,));
    let r1 = g.call_object((a0_1,));
    (r0, r1)
}
pub fn once_vr2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String) |a0: String, a1: String| -> String { user::once_vr2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_vr2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String) |a0: String, a1: String| -> String { user::box_vr2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_vr2(c0: char, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) |a0: String, a1: String| -> String { user::mut_vr2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn ref_vr2(c0: char, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String) |a0: String, a1: String| -> String { user::ref_vr2(c0, c1, a0, a1) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1));
    (r0, r1)
}
pub fn once_mv0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String) || -> String { user::once_mv0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_mv0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String) || -> String { user::box_mv0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_mv0(c0: String, c1: char) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, c1: char) || -> String { user::mut_mv0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn once_mv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String) |a0: String| -> String { user::once_mv1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String) |a0: String| -> String { user::box_mv1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mv1(c0: String, c1: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, c1: char) |a0: String| -> String { user::mut_mv1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn dyn_mv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String) |a0: String| -> String { user::dyn_mv1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_mv1(c0: String, c1: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, c1: char) |a0: String| -> String { user::dynmut_mv1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn once_mv2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String) |a0: String, a1: String| -> String { user::once_mv2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_mv2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String) |a0: String, a1: String| -> String { user::box_mv2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_mv2(c0: String, c1: char, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, c1: char) |a0: String, a1: String| -> String { user::mut_mv2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn once_mm0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) || -> String { user::once_mm0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_mm0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) || -> String { user::box_mm0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_mm0(c0: String, c1: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) || -> String { user::mut_mm0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn once_mm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String| -> String { user::once_mm1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String| -> String { user::box_mm1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mm1(c0: String, c1: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String| -> String { user::mut_mm1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn dyn_mm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String| -> String { user::dyn_mm1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_mm1(c0: String, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String| -> String { user::dynmut_mm1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn once_mm2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::once_mm2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_mm2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::box_mm2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_mm2(c0: String, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::mut_mm2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn once_mr0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) || -> String { user::once_mr0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_mr0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) || -> String { user::box_mr0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_mr0(c0: String, c1: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) || -> String { user::mut_mr0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn once_mr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String| -> String { user::once_mr1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String| -> String { user::box_mr1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mr1(c0: String, c1: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String| -> String { user::mut_mr1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn dyn_mr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String| -> String { user::dyn_mr1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_mr1(c0: String, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String| -> String { user::dynmut_mr1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn once_mr2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String, a1: String| -> String { user::once_mr2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_mr2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String, a1: String| -> String { user::box_mr2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_mr2(c0: String, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String) |a0: String, a1: String| -> String { user::mut_mr2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn once_rv0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String) || -> String { user::once_rv0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_rv0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String) || -> String { user::box_rv0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_rv0(c0: String, c1: char) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) || -> String { user::mut_rv0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_rv0(c0: String, c1: char) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) || -> String { user::ref_rv0(c0, c1) } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_rv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String) |a0: String| -> String { user::once_rv1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String) |a0: String| -> String { user::box_rv1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rv1(c0: String, c1: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) |a0: String| -> String { user::mut_rv1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_rv1(c0: String, c1: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) |a0: String| -> String { user::ref_rv1(c0, c1, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn dyn_rv1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String) |a0: String| -> String { user::dyn_rv1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_rv1(c0: String, c1: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) |a0: String| -> String { user::dynmut_rv1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn dynref_rv1(c0: String, c1: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) |a0: String| -> String { user::dynref_rv1(c0, c1, a0) } };
    let mut g: Box<dyn FnObject<(String,), Output = String>> = f;
    let r0 = g.call_object((a0_0,));
    let r1 = g.call_object((a0_1,));
    (r0, r1)
}
pub fn once_rv2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String) |a0: String, a1: String| -> String { user::once_rv2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_rv2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String) |a0: String, a1: String| -> String { user::box_rv2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_rv2(c0: String, c1: char, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) |a0: String, a1: String| -> String { user::mut_rv2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn ref_rv2(c0: String, c1: char, a0_0: String, a1_0: String, a0_1: String, a1_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char) |a0: String, a1: String| -> String { user::ref_rv2(c0, c1, a0, a1) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1));
    (r0, r1)
}
pub fn once_rm0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) || -> String { user::once_rm0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_rm0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) || -> String { user::box_rm0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_rm0(c0: String, c1: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) || -> String { user::mut_rm0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn once_rm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String| -> String { user::once_rm1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String| -> String { user::box_rm1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rm1(c0: String, c1: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String| -> String { user::mut_rm1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn dyn_rm1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String| -> String { user::dyn_rm1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_rm1(c0: String, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String| -> String { user::dynmut_rm1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn once_rm2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::once_rm2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_rm2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::box_rm2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_rm2(c0: String, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String) |a0: String, a1: String| -> String { user::mut_rm2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn once_rr0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String) || -> String { user::once_rr0(c0, c1) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_rr0(c0: String, c1: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String) || -> String { user::box_rr0(c0, c1) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_rr0(c0: String, c1: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) || -> String { user::mut_rr0(c0, c1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_rr0(c0: String, c1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) || -> String { user::ref_rr0(c0, c1) } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_rr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String| -> String { user::once_rr1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String| -> String { user::box_rr1(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rr1(c0: String, c1: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String| -> String { user::mut_rr1(c0, c1, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_rr1(c0: String, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String| -> String { user::ref_rr1(c0, c1, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn dyn_rr1(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String| -> String { user::dyn_rr1(c0, c1, a0) } };
    let mut g: Box<dyn FnOnceObject<(String,), Output = String>> = f;
    let r0 = g.call_object_once((a0_0,));
    r0
}
pub fn dynmut_rr1(c0: String, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String| -> String { user::dynmut_rr1(c0, c1, a0) } };
    let mut g: Box<dyn FnMutObject<(String,), Output = String>> = f;
    let r0 = g.call_object_mut((a0_0,));
    let r1 = g.call_object_mut((a0_1,));
    (r0, r1)
}
pub fn dynref_rr1(c0: String, c1: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String| -> String { user::dynref_rr1(c0, c1, a0) } };
    let mut g: Box<dyn FnObject<(String,), Output = String>> = f;
    let r0 = g.call_object((a0_0,));
    let r1 = g.call_object((a0_1,));
    (r0, r1)
}
pub fn once_rr2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String, a1: String| -> String { user::once_rr2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_rr2(c0: String, c1: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String, a1: String| -> String { user::box_rr2(c0, c1, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_rr2(c0: String, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String, a1: String| -> String { user::mut_rr2(c0, c1, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn ref_rr2(c0: String, c1: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String) |a0: String, a1: String| -> String { user::ref_rr2(c0, c1, a0, a1) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1));
    (r0, r1)
}
pub fn once_vvv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, c2: String) |a0: String| -> String { user::once_vvv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vvv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, c2: String) |a0: String| -> String { user::box_vvv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vvv1(c0: char, c1: char, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, c1: char, c2: char) |a0: String| -> String { user::mut_vvv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_vvv1(c0: char, c1: char, c2: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char, c2: char) |a0: String| -> String { user::ref_vvv1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_vvm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, &mut c2: &mut String) |a0: String| -> String { user::once_vvm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vvm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, &mut c2: &mut String) |a0: String| -> String { user::box_vvm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vvm1(c0: char, c1: char, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, c1: char, &mut c2: &mut String) |a0: String| -> String { user::mut_vvm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_vvr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, &c2: &String) |a0: String| -> String { user::once_vvr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vvr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, &c2: &String) |a0: String| -> String { user::box_vvr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vvr1(c0: char, c1: char, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, c1: char, &c2: &String) |a0: String| -> String { user::mut_vvr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_vvr1(c0: char, c1: char, c2: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char, &c2: &String) |a0: String| -> String { user::ref_vvr1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_vmv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, c2: String) |a0: String| -> String { user::once_vmv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vmv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, c2: String) |a0: String| -> String { user::box_vmv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vmv1(c0: char, c1: String, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String, c2: char) |a0: String| -> String { user::mut_vmv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_vmm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::once_vmm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vmm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::box_vmm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vmm1(c0: char, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::mut_vmm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_vmr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::once_vmr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vmr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::box_vmr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vmr1(c0: char, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::mut_vmr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_vrv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String, c2: String) |a0: String| -> String { user::once_vrv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vrv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String, c2: String) |a0: String| -> String { user::box_vrv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vrv1(c0: char, c1: String, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String, c2: char) |a0: String| -> String { user::mut_vrv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_vrv1(c0: char, c1: String, c2: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String, c2: char) |a0: String| -> String { user::ref_vrv1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_vrm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::once_vrm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vrm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::box_vrm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vrm1(c0: char, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::mut_vrm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_vrr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String, &c2: &String) |a0: String| -> String { user::once_vrr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_vrr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String, &c2: &String) |a0: String| -> String { user::box_vrr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_vrr1(c0: char, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String, &c2: &String) |a0: String| -> String { user::mut_vrr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_vrr1(c0: char, c1: String, c2: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(c0: char, &c1: &String, &c2: &String) |a0: String| -> String { user::ref_vrr1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_mvv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String, c2: String) |a0: String| -> String { user::once_mvv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mvv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String, c2: String) |a0: String| -> String { user::box_mvv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mvv1(c0: String, c1: char, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, c1: char, c2: char) |a0: String| -> String { user::mut_mvv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mvm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String, &mut c2: &mut String) |a0: String| -> String { user::once_mvm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mvm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String, &mut c2: &mut String) |a0: String| -> String { user::box_mvm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mvm1(c0: String, c1: char, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, c1: char, &mut c2: &mut String) |a0: String| -> String { user::mut_mvm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mvr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String, &c2: &String) |a0: String| -> String { user::once_mvr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mvr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, c1: String, &c2: &String) |a0: String| -> String { user::box_mvr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mvr1(c0: String, c1: char, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, c1: char, &c2: &String) |a0: String| -> String { user::mut_mvr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mmv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, c2: String) |a0: String| -> String { user::once_mmv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mmv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, c2: String) |a0: String| -> String { user::box_mmv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mmv1(c0: String, c1: String, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, c2: char) |a0: String| -> String { user::mut_mmv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mmm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::once_mmm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mmm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::box_mmm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mmm1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::mut_mmm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mmr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::once_mmr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mmr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::box_mmr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mmr1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::mut_mmr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mrv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, c2: String) |a0: String| -> String { user::once_mrv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mrv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, c2: String) |a0: String| -> String { user::box_mrv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mrv1(c0: String, c1: String, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, c2: char) |a0: String| -> String { user::mut_mrv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mrm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::once_mrm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mrm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::box_mrm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mrm1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::mut_mrm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_mrr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, &c2: &String) |a0: String| -> String { user::once_mrr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_mrr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, &c2: &String) |a0: String| -> String { user::box_mrr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_mrr1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &c1: &String, &c2: &String) |a0: String| -> String { user::mut_mrr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_rvv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, c2: String) |a0: String| -> String { user::once_rvv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rvv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, c2: String) |a0: String| -> String { user::box_rvv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rvv1(c0: String, c1: char, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char, c2: char) |a0: String| -> String { user::mut_rvv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_rvv1(c0: String, c1: char, c2: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char, c2: char) |a0: String| -> String { user::ref_rvv1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_rvm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, &mut c2: &mut String) |a0: String| -> String { user::once_rvm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rvm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, &mut c2: &mut String) |a0: String| -> String { user::box_rvm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rvm1(c0: String, c1: char, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char, &mut c2: &mut String) |a0: String| -> String { user::mut_rvm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_rvr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, &c2: &String) |a0: String| -> String { user::once_rvr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rvr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, &c2: &String) |a0: String| -> String { user::box_rvr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rvr1(c0: String, c1: char, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char, &c2: &String) |a0: String| -> String { user::mut_rvr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_rvr1(c0: String, c1: char, c2: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char, &c2: &String) |a0: String| -> String { user::ref_rvr1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_rmv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, c2: String) |a0: String| -> String { user::once_rmv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rmv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, c2: String) |a0: String| -> String { user::box_rmv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rmv1(c0: String, c1: String, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, c2: char) |a0: String| -> String { user::mut_rmv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_rmm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::once_rmm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rmm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::box_rmm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rmm1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, &mut c2: &mut String) |a0: String| -> String { user::mut_rmm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_rmr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::once_rmr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rmr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::box_rmr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rmr1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &mut c1: &mut String, &c2: &String) |a0: String| -> String { user::mut_rmr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_rrv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, c2: String) |a0: String| -> String { user::once_rrv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rrv1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, c2: String) |a0: String| -> String { user::box_rrv1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rrv1(c0: String, c1: String, c2: char, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String, c2: char) |a0: String| -> String { user::mut_rrv1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_rrv1(c0: String, c1: String, c2: char, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String, c2: char) |a0: String| -> String { user::ref_rrv1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_rrm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::once_rrm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rrm1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::box_rrm1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rrm1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String, &mut c2: &mut String) |a0: String| -> String { user::mut_rrm1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn once_rrr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, &c2: &String) |a0: String| -> String { user::once_rrr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
pub fn box_rrr1(c0: String, c1: String, c2: String, a0_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, &c2: &String) |a0: String| -> String { user::box_rrr1(c0, c1, c2, a0) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0,));
    r0
}
pub fn mut_rrr1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String, a0_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String, &c2: &String) |a0: String| -> String { user::mut_rrr1(c0, c1, c2, a0) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0,));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1,));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2,));
    (r0, r1, r2)
}
pub fn ref_rrr1(c0: String, c1: String, c2: String, a0_0: String, a0_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String, &c2: &String) |a0: String| -> String { user::ref_rrr1(c0, c1, c2, a0) } };
    let r0 = FnObject::call_object(&*f, (a0_0,));
    let r1 = FnObject::call_object(&*f, (a0_1,));
    (r0, r1)
}
pub fn once_vmrvm3(c0: String, c1: String, c2: String, c3: String, c4: String, a0_0: String, a1_0: String, a2_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, &c2: &String, c3: String, &mut c4: &mut String) |a0: String, a1: String, a2: String| -> String { user::once_vmrvm3(c0, c1, c2, c3, c4, a0, a1, a2) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0, a2_0));
    r0
}
pub fn box_vmrvm3(c0: String, c1: String, c2: String, c3: String, c4: String, a0_0: String, a1_0: String, a2_0: String) -> String {
    let mut f = lambda! { move(c0: String, &mut c1: &mut String, &c2: &String, c3: String, &mut c4: &mut String) |a0: String, a1: String, a2: String| -> String { user::box_vmrvm3(c0, c1, c2, c3, c4, a0, a1, a2) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0, a2_0));
    r0
}
pub fn mut_vmrvm3(c0: char, c1: String, c2: String, c3: char, c4: String, a0_0: String, a1_0: String, a2_0: String, a0_1: String, a1_1: String, a2_1: String, a0_2: String, a1_2: String, a2_2: String) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, &mut c1: &mut String, &c2: &String, c3: char, &mut c4: &mut String) |a0: String, a1: String, a2: String| -> String { user::mut_vmrvm3(c0, c1, c2, c3, c4, a0, a1, a2) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0, a2_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1, a2_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2, a2_2));
    (r0, r1, r2)
}
pub fn once_rrvvmm2(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, c2: String, c3: String, &mut c4: &mut String, &mut c5: &mut String) |a0: String, a1: String| -> String { user::once_rrvvmm2(c0, c1, c2, c3, c4, c5, a0, a1) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0));
    r0
}
pub fn box_rrvvmm2(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, a0_0: String, a1_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, &c1: &String, c2: String, c3: String, &mut c4: &mut String, &mut c5: &mut String) |a0: String, a1: String| -> String { user::box_rrvvmm2(c0, c1, c2, c3, c4, c5, a0, a1) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0));
    r0
}
pub fn mut_rrvvmm2(c0: String, c1: String, c2: char, c3: char, c4: String, c5: String, a0_0: String, a1_0: String, a0_1: String, a1_1: String, a0_2: String, a1_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, &c1: &String, c2: char, c3: char, &mut c4: &mut String, &mut c5: &mut String) |a0: String, a1: String| -> String { user::mut_rrvvmm2(c0, c1, c2, c3, c4, c5, a0, a1) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2));
    (r0, r1, r2)
}
pub fn once_vvvvvvvv0(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String) || -> String { user::once_vvvvvvvv0(c0, c1, c2, c3, c4, c5, c6, c7) } };
    let r0 = FnOnceObject::call_object_once(*f, ());
    r0
}
pub fn box_vvvvvvvv0(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String) -> String {
    let mut f = lambda! { move(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String) || -> String { user::box_vvvvvvvv0(c0, c1, c2, c3, c4, c5, c6, c7) } };
    let r0 = FnOnceObject::call_object_box(f, ());
    r0
}
pub fn mut_vvvvvvvv0(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char) -> (String, String, String) {
    let mut f = lambda! { move(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char) || -> String { user::mut_vvvvvvvv0(c0, c1, c2, c3, c4, c5, c6, c7) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, ());
    let r1 = FnMutObject::call_object_mut(&mut *f, ());
    let r2 = FnMutObject::call_object_mut(&mut *f, ());
    (r0, r1, r2)
}
pub fn ref_vvvvvvvv0(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char) -> (String, String) {
    let mut f = lambda! { move(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char) || -> String { user::ref_vvvvvvvv0(c0, c1, c2, c3, c4, c5, c6, c7) } };
    let r0 = FnObject::call_object(&*f, ());
    let r1 = FnObject::call_object(&*f, ());
    (r0, r1)
}
pub fn once_mmmmm5(c0: String, c1: String, c2: String, c3: String, c4: String, a0_0: String, a1_0: String, a2_0: String, a3_0: String, a4_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &mut c2: &mut String, &mut c3: &mut String, &mut c4: &mut String) |a0: String, a1: String, a2: String, a3: String, a4: String| -> String { user::once_mmmmm5(c0, c1, c2, c3, c4, a0, a1, a2, a3, a4) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0, a2_0, a3_0, a4_0));
    r0
}
pub fn box_mmmmm5(c0: String, c1: String, c2: String, c3: String, c4: String, a0_0: String, a1_0: String, a2_0: String, a3_0: String, a4_0: String) -> String {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &mut c2: &mut String, &mut c3: &mut String, &mut c4: &mut String) |a0: String, a1: String, a2: String, a3: String, a4: String| -> String { user::box_mmmmm5(c0, c1, c2, c3, c4, a0, a1, a2, a3, a4) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0, a2_0, a3_0, a4_0));
    r0
}
pub fn mut_mmmmm5(c0: String, c1: String, c2: String, c3: String, c4: String, a0_0: String, a1_0: String, a2_0: String, a3_0: String, a4_0: String, a0_1: String, a1_1: String, a2_1: String, a3_1: String, a4_1: String, a0_2: String, a1_2: String, a2_2: String, a3_2: String, a4_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&mut c0: &mut String, &mut c1: &mut String, &mut c2: &mut String, &mut c3: &mut String, &mut c4: &mut String) |a0: String, a1: String, a2: String, a3: String, a4: String| -> String { user::mut_mmmmm5(c0, c1, c2, c3, c4, a0, a1, a2, a3, a4) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0, a2_0, a3_0, a4_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1, a2_1, a3_1, a4_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2, a2_2, a3_2, a4_2));
    (r0, r1, r2)
}
pub fn once_rvrvrvrv4(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String, a0_0: String, a1_0: String, a2_0: String, a3_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, &c2: &String, c3: String, &c4: &String, c5: String, &c6: &String, c7: String) |a0: String, a1: String, a2: String, a3: String| -> String { user::once_rvrvrvrv4(c0, c1, c2, c3, c4, c5, c6, c7, a0, a1, a2, a3) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0, a2_0, a3_0));
    r0
}
pub fn box_rvrvrvrv4(c0: String, c1: String, c2: String, c3: String, c4: String, c5: String, c6: String, c7: String, a0_0: String, a1_0: String, a2_0: String, a3_0: String) -> String {
    let mut f = lambda! { move(&c0: &String, c1: String, &c2: &String, c3: String, &c4: &String, c5: String, &c6: &String, c7: String) |a0: String, a1: String, a2: String, a3: String| -> String { user::box_rvrvrvrv4(c0, c1, c2, c3, c4, c5, c6, c7, a0, a1, a2, a3) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0, a2_0, a3_0));
    r0
}
pub fn mut_rvrvrvrv4(c0: String, c1: char, c2: String, c3: char, c4: String, c5: char, c6: String, c7: char, a0_0: String, a1_0: String, a2_0: String, a3_0: String, a0_1: String, a1_1: String, a2_1: String, a3_1: String, a0_2: String, a1_2: String, a2_2: String, a3_2: String) -> (String, String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char, &c2: &String, c3: char, &c4: &String, c5: char, &c6: &String, c7: char) |a0: String, a1: String, a2: String, a3: String| -> String { user::mut_rvrvrvrv4(c0, c1, c2, c3, c4, c5, c6, c7, a0, a1, a2, a3) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0, a2_0, a3_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1, a2_1, a3_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2, a2_2, a3_2));
    (r0, r1, r2)
}
pub fn ref_rvrvrvrv4(c0: String, c1: char, c2: String, c3: char, c4: String, c5: char, c6: String, c7: char, a0_0: String, a1_0: String, a2_0: String, a3_0: String, a0_1: String, a1_1: String, a2_1: String, a3_1: String) -> (String, String) {
    let mut f = lambda! { move(&c0: &String, c1: char, &c2: &String, c3: char, &c4: &String, c5: char, &c6: &String, c7: char) |a0: String, a1: String, a2: String, a3: String| -> String { user::ref_rvrvrvrv4(c0, c1, c2, c3, c4, c5, c6, c7, a0, a1, a2, a3) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0, a2_0, a3_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1, a2_1, a3_1));
    (r0, r1)
}
pub fn once_none7(a0_0: String, a1_0: String, a2_0: String, a3_0: String, a4_0: String, a5_0: String, a6_0: String) -> String {
    let mut f = lambda! { |a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String| -> String { user::once_none7(a0, a1, a2, a3, a4, a5, a6) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0, a1_0, a2_0, a3_0, a4_0, a5_0, a6_0));
    r0
}
pub fn box_none7(a0_0: String, a1_0: String, a2_0: String, a3_0: String, a4_0: String, a5_0: String, a6_0: String) -> String {
    let mut f = lambda! { |a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String| -> String { user::box_none7(a0, a1, a2, a3, a4, a5, a6) } };
    let r0 = FnOnceObject::call_object_box(f, (a0_0, a1_0, a2_0, a3_0, a4_0, a5_0, a6_0));
    r0
}
pub fn mut_none7(a0_0: String, a1_0: String, a2_0: String, a3_0: String, a4_0: String, a5_0: String, a6_0: String, a0_1: String, a1_1: String, a2_1: String, a3_1: String, a4_1: String, a5_1: String, a6_1: String, a0_2: String, a1_2: String, a2_2: String, a3_2: String, a4_2: String, a5_2: String, a6_2: String) -> (String, String, String) {
    let mut f = lambda! { |a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String| -> String { user::mut_none7(a0, a1, a2, a3, a4, a5, a6) } };
    let r0 = FnMutObject::call_object_mut(&mut *f, (a0_0, a1_0, a2_0, a3_0, a4_0, a5_0, a6_0));
    let r1 = FnMutObject::call_object_mut(&mut *f, (a0_1, a1_1, a2_1, a3_1, a4_1, a5_1, a6_1));
    let r2 = FnMutObject::call_object_mut(&mut *f, (a0_2, a1_2, a2_2, a3_2, a4_2, a5_2, a6_2));
    (r0, r1, r2)
}
pub fn ref_none7(a0_0: String, a1_0: String, a2_0: String, a3_0: String, a4_0: String, a5_0: String, a6_0: String, a0_1: String, a1_1: String, a2_1: String, a3_1: String, a4_1: String, a5_1: String, a6_1: String) -> (String, String) {
    let mut f = lambda! { |a0: String, a1: String, a2: String, a3: String, a4: String, a5: String, a6: String| -> String { user::ref_none7(a0, a1, a2, a3, a4, a5, a6) } };
    let r0 = FnObject::call_object(&*f, (a0_0, a1_0, a2_0, a3_0, a4_0, a5_0, a6_0));
    let r1 = FnObject::call_object(&*f, (a0_1, a1_1, a2_1, a3_1, a4_1, a5_1, a6_1));
    (r0, r1)
}
pub fn once_trailing(c0: String, c1: String, a0_0: String) -> String {
    let mut f = lambda! { move(c0: String, &c1: &String,) |a0: String| -> String { user::once_trailing(c0, c1, a0) } };
    let r0 = FnOnceObject::call_object_once(*f, (a0_0,));
    r0
}
