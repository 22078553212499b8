// Regions of memory behind raw pointers: each pointer field of a structure stands for the region it points to, which the
// structure owns, apart from the others and long enough (assumed here; the layouts are the subject of template layout).
pub fn prefix<T>(v: &Vec<T>, n: usize) -> (r: &[T])
    requires n <= v@.len()
    ensures r@ == v@.take(n as int), r@.len() == n
{ vstd::slice::slice_subrange(v.as_slice(), 0, n) }
#[verifier::external_body]
pub fn prefix_mut<T>(v: &mut Vec<T>, n: usize) -> (r: &mut [T])
    requires n <= old(v)@.len()
    ensures r@ == old(v)@.take(n as int), r@.len() == n, final(r)@.len() == n, final(v)@ == final(r)@ + old(v)@.skip(n as int)
{ unimplemented!() }
