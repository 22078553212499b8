use vstd::prelude::*;

macro_rules! check {
    ($e:expr $(, $m:literal)? $(,)?) => { must($e) };
}

verus! {

pub fn must(b: bool) requires b {}

// Width of value i (0..4) of the group that starts with prefix byte p.
pub open spec fn gv_w(p: u8, i: int) -> int {
    if i == 0 { (p & 3) as int + 1 } else if i == 1 { ((p >> 2) & 3) as int + 1 }
    else if i == 2 { ((p >> 4) & 3) as int + 1 } else { (p >> 6) as int + 1 }
}
pub open spec fn gv_at(p: u8, i: int) -> int {
    if i <= 0 { 1 } else if i == 1 { 1 + gv_w(p, 0) } else if i == 2 { 1 + gv_w(p, 0) + gv_w(p, 1) }
    else if i == 3 { 1 + gv_w(p, 0) + gv_w(p, 1) + gv_w(p, 2) }
    else { 1 + gv_w(p, 0) + gv_w(p, 1) + gv_w(p, 2) + gv_w(p, 3) }
}
pub open spec fn gv_len(b: Seq<u8>) -> int { gv_at(b[0], 4) }
// Little-endian number of w bytes at s[at..].
pub open spec fn le_num(s: Seq<u8>, at: int, w: int) -> int {
    (s[at] as int) + (if w > 1 { 256 * (s[at + 1] as int) } else { 0 })
        + (if w > 2 { 65536 * (s[at + 2] as int) } else { 0 }) + (if w > 3 { 16777216 * (s[at + 3] as int) } else { 0 })
}
pub open spec fn gv_val(b: Seq<u8>, i: int) -> int { le_num(b, gv_at(b[0], i), gv_w(b[0], i)) }
pub open spec fn gv_fits(b: Seq<u8>) -> bool { b.len() >= 5 && b.len() >= gv_len(b) }

// The stream after g groups.
pub open spec fn gv_rest(b: Seq<u8>, g: nat) -> Seq<u8>
    decreases g
{
    if g == 0 { b } else { let r = gv_rest(b, (g - 1) as nat); r.subrange(gv_len(r), r.len() as int) }
}
pub open spec fn gv_all_fit(b: Seq<u8>, n: nat) -> bool {
    forall|g: nat| g < n ==> gv_fits(#[trigger] gv_rest(b, g))
}
pub open spec fn gv_number(b: Seq<u8>, j: int) -> int { gv_val(gv_rest(b, (j / 4) as nat), j % 4) }

// Contract proved for every buffer by the Kani harness c04_decode_gv4.
#[verifier::external_body]
fn decode_gv4<'t>(buffer: &'t [u8], output: &mut [u32]) -> (rest: &'t [u8])
    requires gv_fits(buffer@), old(output)@.len() == 4,
    ensures
        final(output)@.len() == 4,
        forall|i: int| 0 <= i < 4 ==> #[trigger] (final(output)@[i]) as int == gv_val(buffer@, i),
        rest@ == buffer@.subrange(gv_len(buffer@), buffer@.len() as int),
{ unimplemented!() }

//@fn src/sampling_job.rs decode_gv4_stream
//@sub assert! ==> check!
//@sub for chunk in stream\.chunks_mut\(4\) \{ ==> let mut at_: usize = 0; while at_ < stream.len() { let chunk = &mut stream[at_..at_ + 4]; at_ = at_ + 4;
//@ret rest
//@spec
    requires
        old(stream)@.len() % 4 == 0,
        buffer@.len() >= old(stream)@.len() + old(stream)@.len() / 4,
        old(stream)@.len() + old(stream)@.len() / 4 <= usize::MAX,
        gv_all_fit(buffer@, (old(stream)@.len() / 4) as nat),
    ensures
        final(stream)@.len() == old(stream)@.len(),
        forall|j: int| 0 <= j < final(stream)@.len() ==> #[trigger] (final(stream)@[j]) as int == gv_number(buffer@, j),
        rest@ == gv_rest(buffer@, (old(stream)@.len() / 4) as nat),
//@loop 1 while at_ < stream.len()
    invariant
        stream@.len() == old(stream)@.len(),
        at_ % 4 == 0, at_ <= stream@.len(), stream@.len() % 4 == 0,
        gv_all_fit(buffer@, (stream@.len() / 4) as nat),
        in_buf@ == gv_rest(buffer@, (at_ / 4) as nat),
        forall|j: int| 0 <= j < at_ ==> #[trigger] (stream@[j]) as int == gv_number(buffer@, j),
    decreases stream@.len() - at_,
//@start 1
    let ghost g = (at_ / 4) as nat;
    assert(gv_fits(gv_rest(buffer@, g)));
//@stop 1
    assert(g + 1 == (at_ / 4) as nat);
//@end

// An encoder writes each number in any number of bytes that holds it; decoding gives the numbers back.
pub open spec fn enc_bytes(v: u32, w: int) -> Seq<u8> {
    Seq::new(w as nat, |k: int| if k == 0 { (v & 255) as u8 } else if k == 1 { ((v >> 8) & 255) as u8 }
        else if k == 2 { ((v >> 16) & 255) as u8 } else { ((v >> 24) & 255) as u8 })
}
pub open spec fn holds(v: u32, w: int) -> bool {
    1 <= w <= 4 && (w == 1 ==> v < 256) && (w == 2 ==> v < 65536) && (w == 3 ==> v < 16777216)
}
pub open spec fn enc_prefix(w: Seq<int>) -> u8 {
    ((w[0] - 1) + 4 * (w[1] - 1) + 16 * (w[2] - 1) + 64 * (w[3] - 1)) as u8
}
pub open spec fn enc_group(v: Seq<u32>, w: Seq<int>) -> Seq<u8> {
    seq![enc_prefix(w)] + enc_bytes(v[0], w[0]) + enc_bytes(v[1], w[1]) + enc_bytes(v[2], w[2]) + enc_bytes(v[3], w[3])
}
proof fn bytes_of(v: u32)
    ensures v as int == ((v & 255) as u8) as int + 256 * (((v >> 8) & 255) as u8) as int + 65536 * (((v >> 16) & 255) as u8) as int
                + 16777216 * (((v >> 24) & 255) as u8) as int,
            v < 256 ==> ((v >> 8) & 255) == 0,
            v < 65536 ==> ((v >> 16) & 255) == 0,
            v < 16777216 ==> ((v >> 24) & 255) == 0,
{
    assert(v == (v & 255) + 256 * ((v >> 8) & 255) + 65536 * ((v >> 16) & 255) + 16777216 * ((v >> 24) & 255)) by (bit_vector);
    assert((v & 255) <= 255 && ((v >> 8) & 255) <= 255 && ((v >> 16) & 255) <= 255 && ((v >> 24) & 255) <= 255) by (bit_vector);
    assert(v < 256 ==> ((v >> 8) & 255) == 0) by (bit_vector);
    assert(v < 65536 ==> ((v >> 16) & 255) == 0) by (bit_vector);
    assert(v < 16777216 ==> ((v >> 24) & 255) == 0) by (bit_vector);
}
proof fn prefix_widths(a: u8, b: u8, c: u8, d: u8)
    requires a < 4, b < 4, c < 4, d < 4,
    ensures ({ let p = (a + 4 * b + 16 * c + 64 * d) as u8;
        (p & 3) == a && ((p >> 2) & 3) == b && ((p >> 4) & 3) == c && (p >> 6) == d })
{
    assert(forall|a: u8, b: u8, c: u8, d: u8| a < 4 && b < 4 && c < 4 && d < 4 ==> {
        let p = (#[trigger] add(add(a, mul(4u8, b)), add(mul(16u8, c), mul(64u8, d))));
        (p & 3) == a && ((p >> 2) & 3) == b && ((p >> 4) & 3) == c && (p >> 6) == d }) by (bit_vector);
    let p = add(add(a, mul(4u8, b)), add(mul(16u8, c), mul(64u8, d)));
}
pub proof fn decode_inverts_encode(v: Seq<u32>, w: Seq<int>, tail: Seq<u8>)
    requires v.len() == 4, w.len() == 4, forall|i: int| 0 <= i < 4 ==> holds(#[trigger] v[i], w[i]),
    ensures ({ let b = enc_group(v, w) + tail;
        gv_fits(b) && gv_len(b) == enc_group(v, w).len() && (forall|i: int| 0 <= i < 4 ==> gv_val(b, i) == #[trigger] v[i] as int)
        && b.subrange(gv_len(b), b.len() as int) == tail })
{
    let b = enc_group(v, w) + tail;
    assert(holds(v[0], w[0]) && holds(v[1], w[1]) && holds(v[2], w[2]) && holds(v[3], w[3]));
    prefix_widths((w[0] - 1) as u8, (w[1] - 1) as u8, (w[2] - 1) as u8, (w[3] - 1) as u8);
    assert(b[0] == enc_prefix(w));
    assert(gv_w(b[0], 0) == w[0] && gv_w(b[0], 1) == w[1] && gv_w(b[0], 2) == w[2] && gv_w(b[0], 3) == w[3]);
    bytes_of(v[0]); bytes_of(v[1]); bytes_of(v[2]); bytes_of(v[3]);
    assert forall|i: int| 0 <= i < 4 implies gv_val(b, i) == #[trigger] v[i] as int by {
        let at = gv_at(b[0], i);
        assert(forall|k: int| 0 <= k < w[i] ==> b[at + k] == #[trigger] enc_bytes(v[i], w[i])[k]);
        assert(b[at] == enc_bytes(v[i], w[i])[0]);
        if w[i] > 1 { assert(b[at + 1] == enc_bytes(v[i], w[i])[1]); }
        if w[i] > 2 { assert(b[at + 2] == enc_bytes(v[i], w[i])[2]); }
        if w[i] > 3 { assert(b[at + 3] == enc_bytes(v[i], w[i])[3]); }
    }
    assert(b.subrange(gv_len(b), b.len() as int) =~= tail);
}

} // verus!
