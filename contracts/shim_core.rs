// ---------------------------------------------------------------------------------------------
// shim_core: contracts ASSUMED for the parts of std / third-party crates the verified functions
// call.  Shared, internally mutable state (atomics) is made explicit: an operation on an atomic
// takes the `World` it acts on, and its contract is the sequential meaning of the operation.
// ---------------------------------------------------------------------------------------------
pub struct World {
    pub cells: Ghost<Map<int, int>>,
}

pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }

pub trait Atomic { type Type; }

pub trait Zero: Sized { fn zero() -> (r: Self); }
pub trait One: Sized { fn one() -> (r: Self); }
//@if INT=u8
pub type Int = u8;
pub type AtomicInt = AtomicU8;
//@endif
//@if INT=u32
pub type Int = u32;
pub type AtomicInt = AtomicU32;
//@endif
//@if INT=u64
pub type Int = u64;
pub type AtomicInt = AtomicU64;
//@endif
pub spec const MAXV: int = Int::MAX as int;

impl Zero for Int { fn zero() -> (r: Self) ensures r == 0 { 0 } }
impl One for Int { fn one() -> (r: Self) ensures r == 1 { 1 } }

pub assume_specification[ ${INT}::max_value ]() -> (r: ${INT})
    ensures r == ${INT}::MAX;
pub assume_specification[ ${INT}::min_value ]() -> (r: ${INT})
    ensures r == ${INT}::MIN;

// vacuity probes and bodies that could not be extracted (see DESIGN.md)
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
