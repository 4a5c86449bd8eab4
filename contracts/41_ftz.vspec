@module ftz filter.rs
@raw
// The guard of the floating-point control register (MXCSR). The register is an explicit argument here: `vx_csr` of every
// function that touches it. A value whose type implements Drop is dropped at the end of its scope, and also when the closure
// panics and unwinds; the extraction writes that drop out (@exit). `vx_call` is the call of the closure, which returns or
// unwinds with the register as it found it: a closure can reach the register only through with_ftz (no other code of the
// crate names it, scanned on every run of C19).
pub struct VxCsr { pub v: u32 }
impl VxCsr {
    pub open spec fn flushing(&self) -> bool { self.v & 0x8000u32 == 0x8000u32 }
}
#[verifier::external_body]
pub fn vx_getcsr(c: &VxCsr) -> (r: u32)
    ensures r == c.v,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_setcsr(c: &mut VxCsr, v: u32)
    ensures final(c).v == v,
{ unimplemented!() }
pub fn vx_flush_zero_on() -> (r: u32) ensures r == 0x8000u32 { 0x8000u32 }
#[verifier::external_body]
pub fn vx_call<F: FnOnce(Option<&Ftz>) -> T, T>(c: &mut VxCsr, func: F, ftz: Option<&Ftz>) -> (r: T)
    requires
        ftz is Some ==> old(c).flushing(), //# C19
    ensures final(c).v == old(c).v,
{ unimplemented!() }

/// setting a bit
pub proof fn bits(v: u32)
    ensures (v | 0x8000u32) & 0x8000u32 == 0x8000u32,
{
    assert((v | 0x8000u32) & 0x8000u32 == 0x8000u32) by (bit_vector);
}
@item Ftz
@impl impl Ftz
@fn Ftz::new() -> r
@props C19
@sig
    fn new(vx_csr: &mut VxCsr) -> (r: Ftz)
@subst _mm_getcsr() =>> vx_getcsr(vx_csr)
@subst _mm_setcsr( =>> vx_setcsr(vx_csr,
@subst _MM_FLUSH_ZERO_ON =>> vx_flush_zero_on()
@spec
    ensures
        r.0 == old(vx_csr).v, //# C19
        final(vx_csr).v == old(vx_csr).v | 0x8000u32, //# C19

@fn Ftz.Drop::drop() -> r
@props C19
@sig
    fn drop(&self, vx_csr: &mut VxCsr)
@subst _mm_setcsr( =>> vx_setcsr(vx_csr,
@subst _mm_getcsr() =>> vx_getcsr(vx_csr)
@subst _MM_FLUSH_ZERO_ON =>> vx_flush_zero_on()
@spec
    ensures final(vx_csr).v == self.0, //# C19
@endimpl

@fn with_ftz(func) -> r
@props C19
@sig
    pub fn with_ftz<F: FnOnce(Option<&Ftz>) -> T, T>(vx_csr: &mut VxCsr, func: F) -> (r: T)
@dropty Ftz vx_csr
@subst Ftz :: new() =>> Ftz::new(vx_csr)
@subst func( =>> vx_call(vx_csr, func, 
@subst _mm_setcsr( =>> vx_setcsr(vx_csr,
@subst _mm_getcsr() =>> vx_getcsr(vx_csr)
@entry
    proof { bits(vx_csr.v); }
@spec
    ensures final(vx_csr).v == old(vx_csr).v, //# C19
