// Byte sets: what a value of byteset.ByteSet stands for, and facts on bits.
verus! {

// bit j of a word. Kept abstract; the broadcast lemmas below say all.
pub closed spec fn bit(x: u64, j: u64) -> bool { (x >> j) & 1u64 == 1u64 }

pub open spec fn bs_ok(s: byteset_ByteSet) -> bool { s.data.len() == 4 }

// membership
pub open spec fn bs_has(s: byteset_ByteSet, b: u8) -> bool { bit(s.data[b as int / 64], (b as int % 64) as u64) }

// the members (bs_list_props: exactly the bytes with bs_has)
pub open spec fn bs_set(s: byteset_ByteSet) -> Set<u8> { bs_list(s).to_set() }

pub open spec fn bs_empty(s: byteset_ByteSet) -> bool { forall|b: u8| !#[trigger] bs_has(s, b) }

// ---- bits ------------------------------------------------------------------
pub broadcast proof fn bit_shr(x: u64, j: u64)
    requires j < 64,
    ensures #![trigger ((x >> j) & 1u64)] ((x >> j) & 1u64) == (if bit(x, j) { 1u64 } else { 0u64 }),
{ assert(((x >> j) & 1u64) == 1 || ((x >> j) & 1u64) == 0) by (bit_vector); }

pub broadcast proof fn bit_mask(x: u64, j: u64)
    requires j < 64,
    ensures #![trigger (x & (1u64 << j))] (x & (1u64 << j)) == (if bit(x, j) { 1u64 << j } else { 0u64 }), (1u64 << j) != 0,
{
    assert((x & (1u64 << j)) == (if ((x >> j) & 1u64) == 1 { 1u64 << j } else { 0u64 }) && (1u64 << j) != 0) by (bit_vector)
        requires j < 64;
}

pub broadcast proof fn bit_or(x: u64, y: u64, j: u64)
    ensures #[trigger] bit(x | y, j) == (bit(x, j) || bit(y, j)),
{ assert((((x | y) >> j) & 1u64 == 1u64) == (((x >> j) & 1u64 == 1u64) || ((y >> j) & 1u64 == 1u64))) by (bit_vector); }

pub broadcast proof fn bit_and(x: u64, y: u64, j: u64)
    ensures #[trigger] bit(x & y, j) == (bit(x, j) && bit(y, j)),
{ assert((((x & y) >> j) & 1u64 == 1u64) == (((x >> j) & 1u64 == 1u64) && ((y >> j) & 1u64 == 1u64))) by (bit_vector); }

pub broadcast proof fn bit_xor(x: u64, y: u64, j: u64)
    ensures #[trigger] bit(x ^ y, j) == (bit(x, j) != bit(y, j)),
{ assert((((x ^ y) >> j) & 1u64 == 1u64) == (((x >> j) & 1u64 == 1u64) != ((y >> j) & 1u64 == 1u64))) by (bit_vector); }

pub broadcast proof fn bit_not(x: u64, j: u64)
    requires j < 64,
    ensures #[trigger] bit(!x, j) == !bit(x, j),
{ assert((((!x) >> j) & 1u64 == 1u64) == !((x >> j) & 1u64 == 1u64)) by (bit_vector) requires j < 64; }

pub broadcast proof fn bit_one(k: u64, j: u64)
    requires j < 64, k < 64,
    ensures #[trigger] bit(1u64 << k, j) == (j == k),
{ assert((((1u64 << k) >> j) & 1u64 == 1u64) == (j == k)) by (bit_vector) requires j < 64, k < 64; }

pub broadcast proof fn bit_zero(j: u64)
    ensures #[trigger] bit(0u64, j) == false,
{ assert(((0u64 >> j) & 1u64 == 1u64) == false) by (bit_vector); }

pub open spec fn bits_same(x: u64, y: u64) -> bool { forall|j: u64| j < 64 ==> #[trigger] bit(x, j) == bit(y, j) }

pub broadcast proof fn bits_ext(x: u64, y: u64)
    ensures #[trigger] bits_same(x, y) == (x == y),
{
    if bits_same(x, y) {
        assert(bit(x, 0) == bit(y, 0));
        assert(bit(x, 1) == bit(y, 1));
        assert(bit(x, 2) == bit(y, 2));
        assert(bit(x, 3) == bit(y, 3));
        assert(bit(x, 4) == bit(y, 4));
        assert(bit(x, 5) == bit(y, 5));
        assert(bit(x, 6) == bit(y, 6));
        assert(bit(x, 7) == bit(y, 7));
        assert(bit(x, 8) == bit(y, 8));
        assert(bit(x, 9) == bit(y, 9));
        assert(bit(x, 10) == bit(y, 10));
        assert(bit(x, 11) == bit(y, 11));
        assert(bit(x, 12) == bit(y, 12));
        assert(bit(x, 13) == bit(y, 13));
        assert(bit(x, 14) == bit(y, 14));
        assert(bit(x, 15) == bit(y, 15));
        assert(bit(x, 16) == bit(y, 16));
        assert(bit(x, 17) == bit(y, 17));
        assert(bit(x, 18) == bit(y, 18));
        assert(bit(x, 19) == bit(y, 19));
        assert(bit(x, 20) == bit(y, 20));
        assert(bit(x, 21) == bit(y, 21));
        assert(bit(x, 22) == bit(y, 22));
        assert(bit(x, 23) == bit(y, 23));
        assert(bit(x, 24) == bit(y, 24));
        assert(bit(x, 25) == bit(y, 25));
        assert(bit(x, 26) == bit(y, 26));
        assert(bit(x, 27) == bit(y, 27));
        assert(bit(x, 28) == bit(y, 28));
        assert(bit(x, 29) == bit(y, 29));
        assert(bit(x, 30) == bit(y, 30));
        assert(bit(x, 31) == bit(y, 31));
        assert(bit(x, 32) == bit(y, 32));
        assert(bit(x, 33) == bit(y, 33));
        assert(bit(x, 34) == bit(y, 34));
        assert(bit(x, 35) == bit(y, 35));
        assert(bit(x, 36) == bit(y, 36));
        assert(bit(x, 37) == bit(y, 37));
        assert(bit(x, 38) == bit(y, 38));
        assert(bit(x, 39) == bit(y, 39));
        assert(bit(x, 40) == bit(y, 40));
        assert(bit(x, 41) == bit(y, 41));
        assert(bit(x, 42) == bit(y, 42));
        assert(bit(x, 43) == bit(y, 43));
        assert(bit(x, 44) == bit(y, 44));
        assert(bit(x, 45) == bit(y, 45));
        assert(bit(x, 46) == bit(y, 46));
        assert(bit(x, 47) == bit(y, 47));
        assert(bit(x, 48) == bit(y, 48));
        assert(bit(x, 49) == bit(y, 49));
        assert(bit(x, 50) == bit(y, 50));
        assert(bit(x, 51) == bit(y, 51));
        assert(bit(x, 52) == bit(y, 52));
        assert(bit(x, 53) == bit(y, 53));
        assert(bit(x, 54) == bit(y, 54));
        assert(bit(x, 55) == bit(y, 55));
        assert(bit(x, 56) == bit(y, 56));
        assert(bit(x, 57) == bit(y, 57));
        assert(bit(x, 58) == bit(y, 58));
        assert(bit(x, 59) == bit(y, 59));
        assert(bit(x, 60) == bit(y, 60));
        assert(bit(x, 61) == bit(y, 61));
        assert(bit(x, 62) == bit(y, 62));
        assert(bit(x, 63) == bit(y, 63));
        assert(x == y) by (bit_vector) requires
            ((x >> 0) & 1 == 1) == ((y >> 0) & 1 == 1),
            ((x >> 1) & 1 == 1) == ((y >> 1) & 1 == 1),
            ((x >> 2) & 1 == 1) == ((y >> 2) & 1 == 1),
            ((x >> 3) & 1 == 1) == ((y >> 3) & 1 == 1),
            ((x >> 4) & 1 == 1) == ((y >> 4) & 1 == 1),
            ((x >> 5) & 1 == 1) == ((y >> 5) & 1 == 1),
            ((x >> 6) & 1 == 1) == ((y >> 6) & 1 == 1),
            ((x >> 7) & 1 == 1) == ((y >> 7) & 1 == 1),
            ((x >> 8) & 1 == 1) == ((y >> 8) & 1 == 1),
            ((x >> 9) & 1 == 1) == ((y >> 9) & 1 == 1),
            ((x >> 10) & 1 == 1) == ((y >> 10) & 1 == 1),
            ((x >> 11) & 1 == 1) == ((y >> 11) & 1 == 1),
            ((x >> 12) & 1 == 1) == ((y >> 12) & 1 == 1),
            ((x >> 13) & 1 == 1) == ((y >> 13) & 1 == 1),
            ((x >> 14) & 1 == 1) == ((y >> 14) & 1 == 1),
            ((x >> 15) & 1 == 1) == ((y >> 15) & 1 == 1),
            ((x >> 16) & 1 == 1) == ((y >> 16) & 1 == 1),
            ((x >> 17) & 1 == 1) == ((y >> 17) & 1 == 1),
            ((x >> 18) & 1 == 1) == ((y >> 18) & 1 == 1),
            ((x >> 19) & 1 == 1) == ((y >> 19) & 1 == 1),
            ((x >> 20) & 1 == 1) == ((y >> 20) & 1 == 1),
            ((x >> 21) & 1 == 1) == ((y >> 21) & 1 == 1),
            ((x >> 22) & 1 == 1) == ((y >> 22) & 1 == 1),
            ((x >> 23) & 1 == 1) == ((y >> 23) & 1 == 1),
            ((x >> 24) & 1 == 1) == ((y >> 24) & 1 == 1),
            ((x >> 25) & 1 == 1) == ((y >> 25) & 1 == 1),
            ((x >> 26) & 1 == 1) == ((y >> 26) & 1 == 1),
            ((x >> 27) & 1 == 1) == ((y >> 27) & 1 == 1),
            ((x >> 28) & 1 == 1) == ((y >> 28) & 1 == 1),
            ((x >> 29) & 1 == 1) == ((y >> 29) & 1 == 1),
            ((x >> 30) & 1 == 1) == ((y >> 30) & 1 == 1),
            ((x >> 31) & 1 == 1) == ((y >> 31) & 1 == 1),
            ((x >> 32) & 1 == 1) == ((y >> 32) & 1 == 1),
            ((x >> 33) & 1 == 1) == ((y >> 33) & 1 == 1),
            ((x >> 34) & 1 == 1) == ((y >> 34) & 1 == 1),
            ((x >> 35) & 1 == 1) == ((y >> 35) & 1 == 1),
            ((x >> 36) & 1 == 1) == ((y >> 36) & 1 == 1),
            ((x >> 37) & 1 == 1) == ((y >> 37) & 1 == 1),
            ((x >> 38) & 1 == 1) == ((y >> 38) & 1 == 1),
            ((x >> 39) & 1 == 1) == ((y >> 39) & 1 == 1),
            ((x >> 40) & 1 == 1) == ((y >> 40) & 1 == 1),
            ((x >> 41) & 1 == 1) == ((y >> 41) & 1 == 1),
            ((x >> 42) & 1 == 1) == ((y >> 42) & 1 == 1),
            ((x >> 43) & 1 == 1) == ((y >> 43) & 1 == 1),
            ((x >> 44) & 1 == 1) == ((y >> 44) & 1 == 1),
            ((x >> 45) & 1 == 1) == ((y >> 45) & 1 == 1),
            ((x >> 46) & 1 == 1) == ((y >> 46) & 1 == 1),
            ((x >> 47) & 1 == 1) == ((y >> 47) & 1 == 1),
            ((x >> 48) & 1 == 1) == ((y >> 48) & 1 == 1),
            ((x >> 49) & 1 == 1) == ((y >> 49) & 1 == 1),
            ((x >> 50) & 1 == 1) == ((y >> 50) & 1 == 1),
            ((x >> 51) & 1 == 1) == ((y >> 51) & 1 == 1),
            ((x >> 52) & 1 == 1) == ((y >> 52) & 1 == 1),
            ((x >> 53) & 1 == 1) == ((y >> 53) & 1 == 1),
            ((x >> 54) & 1 == 1) == ((y >> 54) & 1 == 1),
            ((x >> 55) & 1 == 1) == ((y >> 55) & 1 == 1),
            ((x >> 56) & 1 == 1) == ((y >> 56) & 1 == 1),
            ((x >> 57) & 1 == 1) == ((y >> 57) & 1 == 1),
            ((x >> 58) & 1 == 1) == ((y >> 58) & 1 == 1),
            ((x >> 59) & 1 == 1) == ((y >> 59) & 1 == 1),
            ((x >> 60) & 1 == 1) == ((y >> 60) & 1 == 1),
            ((x >> 61) & 1 == 1) == ((y >> 61) & 1 == 1),
            ((x >> 62) & 1 == 1) == ((y >> 62) & 1 == 1),
            ((x >> 63) & 1 == 1) == ((y >> 63) & 1 == 1);
    }
}

// the word and the bit of a byte, written with shifts
pub broadcast proof fn byte_word(x: u8)
    ensures #[trigger] (x >> 6u8) == x / 64,
{ assert((x >> 6u8) == x / 64) by (bit_vector); }

pub broadcast proof fn byte_offset(x: u8)
    ensures #[trigger] (x & 63u8) == x % 64,
{ assert((x & 63u8) == x % 64) by (bit_vector); }

pub broadcast group bits {
    ones_list, trailing_low, bitlen_range,
    byte_word, byte_offset, bit_shr, bit_mask, bit_or, bit_and, bit_xor, bit_not, bit_one, bit_zero, bits_ext,
}

// ---- lowest bit ----------------------------------------------------------------
pub open spec fn low_from(v: u64, j: int) -> int
    decreases 64 - j,
{ if j >= 64 { 64 } else if bit(v, j as u64) { j } else { low_from(v, j + 1) } }

pub open spec fn low(v: u64) -> int { low_from(v, 0) }

pub proof fn low_from_props(v: u64, j: int)
    requires 0 <= j <= 64,
    ensures
        j <= low_from(v, j) <= 64,
        low_from(v, j) < 64 ==> bit(v, low_from(v, j) as u64),
        forall|i: u64| j <= i < low_from(v, j) ==> !#[trigger] bit(v, i),
    decreases 64 - j,
{
    if j < 64 && !bit(v, j as u64) { low_from_props(v, j + 1); }
}

// v & (v-1) clears the lowest bit of v, v - (v & (v-1)) is that bit
pub proof fn low_clear(v: u64)
    requires v != 0,
    ensures
        0 <= low(v) < 64, bit(v, low(v) as u64),
        forall|i: u64| i < low(v) ==> !#[trigger] bit(v, i),
        v & sub(v, 1) == v & !(1u64 << (low(v) as u64)),
        sub(v, v & sub(v, 1)) == 1u64 << (low(v) as u64),
        v & sub(v, 1) < v,
        v & sub(0, v) == 1u64 << (low(v) as u64),
        v & !sub(v, 1) == 1u64 << (low(v) as u64),
        v ^ (1u64 << (low(v) as u64)) == v & sub(v, 1),
        sub(v, 1u64 << (low(v) as u64)) == v & sub(v, 1),
{
    broadcast use bits;
    low_from_props(v, 0);
    if low(v) == 64 { assert(bits_same(v, 0)); assert(v == 0); }
    let k = low(v) as u64;
    let m = sub(1u64 << k, 1);
    assert forall|i: u64| i < 64 implies #[trigger] bit(v & m, i) == bit(0, i) by {
        if i >= k {
            assert(((sub(1u64 << k, 1) >> i) & 1u64) == 0) by (bit_vector) requires i >= k, i < 64, k < 64;
        }
    }
    assert(bits_same(v & m, 0));
    assert((v >> k) & 1u64 == 1u64);
    assert(v & sub(v, 1) == v & !(1u64 << k) && sub(v, v & sub(v, 1)) == 1u64 << k && v & sub(v, 1) < v && v & sub(0, v) == 1u64 << k && v & !sub(v, 1) == 1u64 << k && v ^ (1u64 << k) == v & sub(v, 1) && sub(v, 1u64 << k) == v & sub(v, 1)) by (bit_vector)
        requires (v >> k) & 1u64 == 1u64, v & sub(1u64 << k, 1) == 0, k < 64;
}

// ---- listings --------------------------------------------------------------------
// the bytes o+j for the bits j..63 of v in increasing order
pub open spec fn wlist_from(v: u64, o: int, j: int) -> Seq<u8>
    decreases 64 - j,
{
    if j >= 64 { Seq::empty() }
    else if bit(v, j as u64) { seq![(o + j) as u8] + wlist_from(v, o, j + 1) }
    else { wlist_from(v, o, j + 1) }
}
pub open spec fn wlist(v: u64, o: int) -> Seq<u8> { wlist_from(v, o, 0) }

pub open spec fn bs_list(s: byteset_ByteSet) -> Seq<u8> {
    wlist(s.data[0], 0) + wlist(s.data[1], 64) + wlist(s.data[2], 128) + wlist(s.data[3], 192)
}

pub open spec fn increasing(s: Seq<u8>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }

// equal bits above j: equal listings
proof fn wlist_same(v: u64, w: u64, o: int, j: int)
    requires 0 <= j <= 64, forall|i: u64| j <= i < 64 ==> #[trigger] bit(v, i) == bit(w, i),
    ensures wlist_from(v, o, j) =~= wlist_from(w, o, j),
    decreases 64 - j,
{
    if j < 64 {
        wlist_same(v, w, o, j + 1);
        assert(bit(v, j as u64) == bit(w, j as u64));
    }
}

proof fn wlist_none(v: u64, o: int, j: int, k: int)
    requires 0 <= j <= k <= 64, forall|i: u64| j <= i < k ==> !#[trigger] bit(v, i),
    ensures wlist_from(v, o, j) =~= wlist_from(v, o, k),
    decreases k - j,
{
    if j < k {
        assert(!bit(v, j as u64));
        wlist_none(v, o, j + 1, k);
    }
}

pub proof fn wlist_zero(o: int)
    ensures wlist(0, o) =~= Seq::<u8>::empty(),
{
    broadcast use bits;
    wlist_none(0, o, 0, 64);
}

// one step of a loop over the lowest bits
pub proof fn wlist_step(v: u64, o: int)
    requires v != 0, 0 <= o <= 192,
    ensures
        wlist(v, o).len() > 0,
        wlist(v, o)[0] == (o + low(v)) as u8,
        wlist(v, o) =~= seq![(o + low(v)) as u8] + wlist(v & sub(v, 1), o),
{
    broadcast use bits;
    low_clear(v);
    let k = low(v);
    let w = v & sub(v, 1);
    wlist_none(v, o, 0, k);
    assert forall|i: u64| i <= k implies !#[trigger] bit(w, i) by {}
    wlist_none(w, o, 0, k + 1);
    wlist_same(v, w, o, k + 1);
}

// the functions of math/bits
proof fn ones_from_list(v: u64, j: int)
    requires 0 <= j <= 64,
    ensures go_popcount_from(v, j) == wlist_from(v, 0, j).len(), go_popcount_from(v, j) <= 64 - j,
    decreases 64 - j,
{
    broadcast use bit_shr;
    if j < 64 { ones_from_list(v, j + 1); assert(((v >> (j as u64)) & 1u64 == 1u64) == bit(v, j as u64)); }
}

pub broadcast proof fn ones_list(v: u64)
    ensures #[trigger] go_popcount(v) == wlist(v, 0).len(), go_popcount(v) <= 64,
{ ones_from_list(v, 0); }

proof fn trailing_from_low(v: u64, j: int)
    requires 0 <= j <= 64,
    ensures go_ctz_from(v, j) == low_from(v, j), j <= go_ctz_from(v, j) <= 64,
    decreases 64 - j,
{
    broadcast use bit_shr;
    if j < 64 { trailing_from_low(v, j + 1); assert(((v >> (j as u64)) & 1u64 == 1u64) == bit(v, j as u64)); }
}

pub broadcast proof fn trailing_low(v: u64)
    ensures #[trigger] go_ctz(v) == low(v), 0 <= go_ctz(v) <= 64,
{ trailing_from_low(v, 0); }

proof fn bitlen_to_range(v: u64, j: int)
    requires 0 <= j <= 64,
    ensures 0 <= go_bitlen_from(v, j) <= j,
        go_bitlen_from(v, j) > 0 ==> bit(v, (go_bitlen_from(v, j) - 1) as u64),
        forall|i: u64| go_bitlen_from(v, j) <= i < j ==> !#[trigger] bit(v, i),
    decreases j,
{
    broadcast use bit_shr;
    if j > 0 { bitlen_to_range(v, j - 1); assert(((v >> ((j - 1) as u64)) & 1u64 == 1u64) == bit(v, (j - 1) as u64)); }
}

pub broadcast proof fn bitlen_range(v: u64)
    ensures 0 <= #[trigger] go_bitlen(v) <= 64,
{ bitlen_to_range(v, 64); }

// a power of two has one bit
pub broadcast proof fn pow2_bit(k: u64)
    requires k < 64,
    ensures #![trigger (1u64 << k)] go_ctz(1u64 << k) == k, go_bitlen(1u64 << k) == k + 1,
{
    broadcast use bits;
    low_from_props(1u64 << k, 0);
    bitlen_to_range(1u64 << k, 64);
    assert(bit(1u64 << k, k));
}

// membership and order
pub proof fn wlist_props(v: u64, o: int, j: int)
    requires 0 <= j <= 64, 0 <= o <= 192,
    ensures
        increasing(wlist_from(v, o, j)),
        wlist_from(v, o, j).len() <= 64 - j,
        forall|i: int| 0 <= i < wlist_from(v, o, j).len() ==> o + j <= #[trigger] wlist_from(v, o, j)[i] < o + 64 && bit(v, (wlist_from(v, o, j)[i] - o) as u64),
        forall|b: u8| o + j <= b < o + 64 && bit(v, (b - o) as u64) ==> #[trigger] wlist_from(v, o, j).contains(b),
    decreases 64 - j,
{
    if j < 64 {
        wlist_props(v, o, j + 1);
        let l = wlist_from(v, o, j);
        let r = wlist_from(v, o, j + 1);
        if bit(v, j as u64) {
            assert(l =~= seq![(o + j) as u8] + r);
            assert forall|i: int| 0 <= i < l.len() implies o + j <= #[trigger] l[i] < o + 64 && bit(v, (l[i] - o) as u64) by {
                if i > 0 { assert(l[i] == r[i - 1]); }
            }
            assert forall|a: int, c: int| 0 <= a < c < l.len() implies l[a] < l[c] by {
                assert(l[c] == r[c - 1]);
                if a > 0 { assert(l[a] == r[a - 1]); }
            }
            assert forall|b: u8| o + j <= b < o + 64 && bit(v, (b - o) as u64) implies #[trigger] l.contains(b) by {
                if b == o + j { assert(l[0] == b); } else {
                    assert(r.contains(b));
                    let i = choose|i: int| 0 <= i < r.len() && r[i] == b;
                    assert(l[i + 1] == b);
                }
            }
        } else {
            assert(l =~= r);
            assert forall|b: u8| o + j <= b < o + 64 && bit(v, (b - o) as u64) implies #[trigger] l.contains(b) by {
                if b == o + j { assert(bit(v, j as u64)); }
            }
        }
    }
}

proof fn contains_add(a: Seq<u8>, b: Seq<u8>, x: u8)
    ensures (a + b).contains(x) == (a.contains(x) || b.contains(x)),
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[i + a.len()] == x); }
}

// the listing of a set is increasing and has exactly the members
pub proof fn bs_list_props(s: byteset_ByteSet)
    requires bs_ok(s),
    ensures
        increasing(bs_list(s)),
        bs_list(s).len() <= 256,
        forall|b: u8| #[trigger] bs_list(s).contains(b) == bs_has(s, b),
        bs_list(s).len() == bs_set(s).len(),
        forall|b: u8| #[trigger] bs_set(s).contains(b) == bs_has(s, b),
{
    let a = wlist(s.data[0], 0); let b = wlist(s.data[1], 64); let c = wlist(s.data[2], 128); let d = wlist(s.data[3], 192);
    wlist_props(s.data[0], 0, 0);
    wlist_props(s.data[1], 64, 0);
    wlist_props(s.data[2], 128, 0);
    wlist_props(s.data[3], 192, 0);
    let l = bs_list(s);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies l[i] < l[j] by {
        let n1 = a.len() as int; let n2 = n1 + b.len(); let n3 = n2 + c.len();
        let f = |k: int| if k < n1 { a[k] } else if k < n2 { b[k - n1] } else if k < n3 { c[k - n2] } else { d[k - n3] };
        assert(l[i] == f(i)); assert(l[j] == f(j));
    }
    assert forall|x: u8| #[trigger] l.contains(x) == bs_has(s, x) by {
        contains_add(a, b, x); contains_add(a + b, c, x); contains_add(a + b + c, d, x);
        if x < 64 { assert(a.contains(x) == bs_has(s, x)); }
        else if x < 128 { assert(b.contains(x) == bs_has(s, x)); }
        else if x < 192 { assert(c.contains(x) == bs_has(s, x)); }
        else { assert(d.contains(x) == bs_has(s, x)); }
    }
    l.unique_seq_to_set();
}

// ---- comparisons word by word ----------------------------------------------------
proof fn byte_of(i: int, j: u64) -> (b: u8)
    requires 0 <= i < 4, j < 64,
    ensures b as int / 64 == i, (b as int % 64) as u64 == j,
{ (i * 64 + j) as u8 }

pub proof fn bs_words_eq(s: byteset_ByteSet, t: byteset_ByteSet)
    requires bs_ok(s), bs_ok(t),
    ensures
        (forall|b: u8| #[trigger] bs_has(s, b) == bs_has(t, b)) == (forall|i: int| 0 <= i < 4 ==> #[trigger] s.data[i] == t.data[i]),
        (forall|b: u8| #[trigger] bs_has(s, b) == bs_has(t, b)) == (s.data =~= t.data),
        (forall|b: u8| #[trigger] bs_has(s, b) == bs_has(t, b)) == (s.data[0] == t.data[0] && s.data[1] == t.data[1] && s.data[2] == t.data[2] && s.data[3] == t.data[3]),
{
    broadcast use bits;
    if forall|b: u8| #[trigger] bs_has(s, b) == bs_has(t, b) {
        assert forall|i: int| 0 <= i < 4 implies #[trigger] s.data[i] == t.data[i] by {
            assert forall|j: u64| j < 64 implies #[trigger] bit(s.data[i], j) == bit(t.data[i], j) by {
                let b = byte_of(i, j);
                assert(bs_has(s, b) == bs_has(t, b));
            }
            assert(bits_same(s.data[i], t.data[i]));
        }
    }
}

pub proof fn bs_words_sub(s: byteset_ByteSet, t: byteset_ByteSet)
    requires bs_ok(s), bs_ok(t),
    ensures
        (forall|b: u8| #[trigger] bs_has(s, b) ==> bs_has(t, b)) == (forall|i: int| 0 <= i < 4 ==> #[trigger] s.data[i] & t.data[i] == s.data[i]),
        (forall|b: u8| #[trigger] bs_has(s, b) ==> bs_has(t, b)) == (forall|i: int| 0 <= i < 4 ==> #[trigger] s.data[i] & !t.data[i] == 0),
        (forall|b: u8| #[trigger] bs_has(s, b) ==> bs_has(t, b)) == (forall|i: int| 0 <= i < 4 ==> #[trigger] s.data[i] | t.data[i] == t.data[i]),
{
    broadcast use bits;
    if forall|b: u8| #[trigger] bs_has(s, b) ==> bs_has(t, b) {
        assert forall|i: int| 0 <= i < 4 implies #[trigger] s.data[i] & t.data[i] == s.data[i] && #[trigger] s.data[i] & !t.data[i] == 0 && #[trigger] s.data[i] | t.data[i] == t.data[i] by {
            assert forall|j: u64| j < 64 && #[trigger] bit(s.data[i], j) implies bit(t.data[i], j) by {
                let b = byte_of(i, j);
                assert(bs_has(s, b) ==> bs_has(t, b));
            }
            assert(bits_same(s.data[i] & t.data[i], s.data[i]));
            assert(bits_same(s.data[i] & !t.data[i], 0));
            assert(bits_same(s.data[i] | t.data[i], t.data[i]));
        }
    } else {
        let b = choose|b: u8| #[trigger] bs_has(s, b) && !bs_has(t, b);
        let i = b as int / 64; let j = (b as int % 64) as u64;
        assert(0 <= i < 4);
        assert(bit(s.data[i], j) && !bit(t.data[i], j));
        assert(bit(s.data[i] & t.data[i], j) != bit(s.data[i], j));
        assert(bit(s.data[i] & !t.data[i], j) != bit(0, j));
        assert(bit(s.data[i] | t.data[i], j) != bit(t.data[i], j));
    }
}

// ---- powers of two -----------------------------------------------------------------
pub proof fn pow2_cases(x: u64)
    requires exists|k: u64| k < 64 && x == 1u64 << k,
    ensures
x == 0x1u64 || x == 0x2u64 || x == 0x4u64 || x == 0x8u64 || x == 0x10u64 || x == 0x20u64 || x == 0x40u64 || x == 0x80u64 || x == 0x100u64 || x == 0x200u64 || x == 0x400u64 || x == 0x800u64 || x == 0x1000u64 || x == 0x2000u64 || x == 0x4000u64 || x == 0x8000u64 || x == 0x10000u64 || x == 0x20000u64 || x == 0x40000u64 || x == 0x80000u64 || x == 0x100000u64 || x == 0x200000u64 || x == 0x400000u64 || x == 0x800000u64 || x == 0x1000000u64 || x == 0x2000000u64 || x == 0x4000000u64 || x == 0x8000000u64 || x == 0x10000000u64 || x == 0x20000000u64 || x == 0x40000000u64 || x == 0x80000000u64 || x == 0x100000000u64 || x == 0x200000000u64 || x == 0x400000000u64 || x == 0x800000000u64 || x == 0x1000000000u64 || x == 0x2000000000u64 || x == 0x4000000000u64 || x == 0x8000000000u64 || x == 0x10000000000u64 || x == 0x20000000000u64 || x == 0x40000000000u64 || x == 0x80000000000u64 || x == 0x100000000000u64 || x == 0x200000000000u64 || x == 0x400000000000u64 || x == 0x800000000000u64 || x == 0x1000000000000u64 || x == 0x2000000000000u64 || x == 0x4000000000000u64 || x == 0x8000000000000u64 || x == 0x10000000000000u64 || x == 0x20000000000000u64 || x == 0x40000000000000u64 || x == 0x80000000000000u64 || x == 0x100000000000000u64 || x == 0x200000000000000u64 || x == 0x400000000000000u64 || x == 0x800000000000000u64 || x == 0x1000000000000000u64 || x == 0x2000000000000000u64 || x == 0x4000000000000000u64 || x == 0x8000000000000000u64,
{
    let k = choose|k: u64| k < 64 && x == 1u64 << k;
    assert(
x == 0x1u64 || x == 0x2u64 || x == 0x4u64 || x == 0x8u64 || x == 0x10u64 || x == 0x20u64 || x == 0x40u64 || x == 0x80u64 || x == 0x100u64 || x == 0x200u64 || x == 0x400u64 || x == 0x800u64 || x == 0x1000u64 || x == 0x2000u64 || x == 0x4000u64 || x == 0x8000u64 || x == 0x10000u64 || x == 0x20000u64 || x == 0x40000u64 || x == 0x80000u64 || x == 0x100000u64 || x == 0x200000u64 || x == 0x400000u64 || x == 0x800000u64 || x == 0x1000000u64 || x == 0x2000000u64 || x == 0x4000000u64 || x == 0x8000000u64 || x == 0x10000000u64 || x == 0x20000000u64 || x == 0x40000000u64 || x == 0x80000000u64 || x == 0x100000000u64 || x == 0x200000000u64 || x == 0x400000000u64 || x == 0x800000000u64 || x == 0x1000000000u64 || x == 0x2000000000u64 || x == 0x4000000000u64 || x == 0x8000000000u64 || x == 0x10000000000u64 || x == 0x20000000000u64 || x == 0x40000000000u64 || x == 0x80000000000u64 || x == 0x100000000000u64 || x == 0x200000000000u64 || x == 0x400000000000u64 || x == 0x800000000000u64 || x == 0x1000000000000u64 || x == 0x2000000000000u64 || x == 0x4000000000000u64 || x == 0x8000000000000u64 || x == 0x10000000000000u64 || x == 0x20000000000000u64 || x == 0x40000000000000u64 || x == 0x80000000000000u64 || x == 0x100000000000000u64 || x == 0x200000000000000u64 || x == 0x400000000000000u64 || x == 0x800000000000000u64 || x == 0x1000000000000000u64 || x == 0x2000000000000000u64 || x == 0x4000000000000000u64 || x == 0x8000000000000000u64) by (bit_vector) requires k < 64, x == 1u64 << k;
}

pub proof fn pow2_values()
    ensures
(1u64 << 0u64) == 0x1u64 && (1u64 << 1u64) == 0x2u64 && (1u64 << 2u64) == 0x4u64 && (1u64 << 3u64) == 0x8u64 && (1u64 << 4u64) == 0x10u64 && (1u64 << 5u64) == 0x20u64 && (1u64 << 6u64) == 0x40u64 && (1u64 << 7u64) == 0x80u64 && (1u64 << 8u64) == 0x100u64 && (1u64 << 9u64) == 0x200u64 && (1u64 << 10u64) == 0x400u64 && (1u64 << 11u64) == 0x800u64 && (1u64 << 12u64) == 0x1000u64 && (1u64 << 13u64) == 0x2000u64 && (1u64 << 14u64) == 0x4000u64 && (1u64 << 15u64) == 0x8000u64 && (1u64 << 16u64) == 0x10000u64 && (1u64 << 17u64) == 0x20000u64 && (1u64 << 18u64) == 0x40000u64 && (1u64 << 19u64) == 0x80000u64 && (1u64 << 20u64) == 0x100000u64 && (1u64 << 21u64) == 0x200000u64 && (1u64 << 22u64) == 0x400000u64 && (1u64 << 23u64) == 0x800000u64 && (1u64 << 24u64) == 0x1000000u64 && (1u64 << 25u64) == 0x2000000u64 && (1u64 << 26u64) == 0x4000000u64 && (1u64 << 27u64) == 0x8000000u64 && (1u64 << 28u64) == 0x10000000u64 && (1u64 << 29u64) == 0x20000000u64 && (1u64 << 30u64) == 0x40000000u64 && (1u64 << 31u64) == 0x80000000u64 && (1u64 << 32u64) == 0x100000000u64 && (1u64 << 33u64) == 0x200000000u64 && (1u64 << 34u64) == 0x400000000u64 && (1u64 << 35u64) == 0x800000000u64 && (1u64 << 36u64) == 0x1000000000u64 && (1u64 << 37u64) == 0x2000000000u64 && (1u64 << 38u64) == 0x4000000000u64 && (1u64 << 39u64) == 0x8000000000u64 && (1u64 << 40u64) == 0x10000000000u64 && (1u64 << 41u64) == 0x20000000000u64 && (1u64 << 42u64) == 0x40000000000u64 && (1u64 << 43u64) == 0x80000000000u64 && (1u64 << 44u64) == 0x100000000000u64 && (1u64 << 45u64) == 0x200000000000u64 && (1u64 << 46u64) == 0x400000000000u64 && (1u64 << 47u64) == 0x800000000000u64 && (1u64 << 48u64) == 0x1000000000000u64 && (1u64 << 49u64) == 0x2000000000000u64 && (1u64 << 50u64) == 0x4000000000000u64 && (1u64 << 51u64) == 0x8000000000000u64 && (1u64 << 52u64) == 0x10000000000000u64 && (1u64 << 53u64) == 0x20000000000000u64 && (1u64 << 54u64) == 0x40000000000000u64 && (1u64 << 55u64) == 0x80000000000000u64 && (1u64 << 56u64) == 0x100000000000000u64 && (1u64 << 57u64) == 0x200000000000000u64 && (1u64 << 58u64) == 0x400000000000000u64 && (1u64 << 59u64) == 0x800000000000000u64 && (1u64 << 60u64) == 0x1000000000000000u64 && (1u64 << 61u64) == 0x2000000000000000u64 && (1u64 << 62u64) == 0x4000000000000000u64 && (1u64 << 63u64) == 0x8000000000000000u64,
{
    assert(
(1u64 << 0u64) == 0x1u64 && (1u64 << 1u64) == 0x2u64 && (1u64 << 2u64) == 0x4u64 && (1u64 << 3u64) == 0x8u64 && (1u64 << 4u64) == 0x10u64 && (1u64 << 5u64) == 0x20u64 && (1u64 << 6u64) == 0x40u64 && (1u64 << 7u64) == 0x80u64 && (1u64 << 8u64) == 0x100u64 && (1u64 << 9u64) == 0x200u64 && (1u64 << 10u64) == 0x400u64 && (1u64 << 11u64) == 0x800u64 && (1u64 << 12u64) == 0x1000u64 && (1u64 << 13u64) == 0x2000u64 && (1u64 << 14u64) == 0x4000u64 && (1u64 << 15u64) == 0x8000u64 && (1u64 << 16u64) == 0x10000u64 && (1u64 << 17u64) == 0x20000u64 && (1u64 << 18u64) == 0x40000u64 && (1u64 << 19u64) == 0x80000u64 && (1u64 << 20u64) == 0x100000u64 && (1u64 << 21u64) == 0x200000u64 && (1u64 << 22u64) == 0x400000u64 && (1u64 << 23u64) == 0x800000u64 && (1u64 << 24u64) == 0x1000000u64 && (1u64 << 25u64) == 0x2000000u64 && (1u64 << 26u64) == 0x4000000u64 && (1u64 << 27u64) == 0x8000000u64 && (1u64 << 28u64) == 0x10000000u64 && (1u64 << 29u64) == 0x20000000u64 && (1u64 << 30u64) == 0x40000000u64 && (1u64 << 31u64) == 0x80000000u64 && (1u64 << 32u64) == 0x100000000u64 && (1u64 << 33u64) == 0x200000000u64 && (1u64 << 34u64) == 0x400000000u64 && (1u64 << 35u64) == 0x800000000u64 && (1u64 << 36u64) == 0x1000000000u64 && (1u64 << 37u64) == 0x2000000000u64 && (1u64 << 38u64) == 0x4000000000u64 && (1u64 << 39u64) == 0x8000000000u64 && (1u64 << 40u64) == 0x10000000000u64 && (1u64 << 41u64) == 0x20000000000u64 && (1u64 << 42u64) == 0x40000000000u64 && (1u64 << 43u64) == 0x80000000000u64 && (1u64 << 44u64) == 0x100000000000u64 && (1u64 << 45u64) == 0x200000000000u64 && (1u64 << 46u64) == 0x400000000000u64 && (1u64 << 47u64) == 0x800000000000u64 && (1u64 << 48u64) == 0x1000000000000u64 && (1u64 << 49u64) == 0x2000000000000u64 && (1u64 << 50u64) == 0x4000000000000u64 && (1u64 << 51u64) == 0x8000000000000u64 && (1u64 << 52u64) == 0x10000000000000u64 && (1u64 << 53u64) == 0x20000000000000u64 && (1u64 << 54u64) == 0x40000000000000u64 && (1u64 << 55u64) == 0x80000000000000u64 && (1u64 << 56u64) == 0x100000000000000u64 && (1u64 << 57u64) == 0x200000000000000u64 && (1u64 << 58u64) == 0x400000000000000u64 && (1u64 << 59u64) == 0x800000000000000u64 && (1u64 << 60u64) == 0x1000000000000000u64 && (1u64 << 61u64) == 0x2000000000000000u64 && (1u64 << 62u64) == 0x4000000000000000u64 && (1u64 << 63u64) == 0x8000000000000000u64) by (bit_vector);
}

pub proof fn pow2_same(a: u64, b: u64)
    requires a < 64, b < 64, 1u64 << a == 1u64 << b,
    ensures a == b,
{ assert(a == b) by (bit_vector) requires a < 64, b < 64, 1u64 << a == 1u64 << b; }

pub broadcast proof fn shr58(x: u64)
    ensures #[trigger] (x >> 58u64) == x as int / 0x400_0000_0000_0000, (x >> 58u64) < 64,
{ assert((x >> 58u64) == x / 0x400_0000_0000_0000u64 && (x >> 58u64) < 64) by (bit_vector); }

pub proof fn wlist_shift(v: u64, o: int, j: int)
    requires 0 <= j <= 64,
    ensures wlist_from(v, o, j).len() == wlist_from(v, 0, j).len(),
    decreases 64 - j,
{ if j < 64 { wlist_shift(v, o, j + 1); } }

// ---- functions over bytes ------------------------------------------------------------
pub trait FnByte: Sized {
    spec fn pre(self, b: u8) -> bool;
    spec fn step(self, b: u8, post: Self) -> bool;
    fn call(Ghost(s_): Ghost<Self>, Ghost(b): Ghost<u8>) -> (r: Ghost<Self>)
        requires s_.pre(b),
        ensures s_.step(b, r@),
    ;
}

// calling f with each byte of l in turn can lead from f to g
pub open spec fn folds<F: FnByte>(f: F, l: Seq<u8>, g: F) -> bool
    decreases l.len(),
{
    if l.len() == 0 { f == g }
    else { exists|m: F| folds(f, l.drop_last(), m) && #[trigger] m.step(l.last(), g) }
}

// ... and every call on the way is allowed
pub open spec fn fold_ok<F: FnByte>(f: F, l: Seq<u8>) -> bool {
    forall|i: int, m: F| 0 <= i < l.len() && #[trigger] folds(f, l.take(i), m) ==> m.pre(l[i])
}

pub proof fn folds_step<F: FnByte>(f: F, l: Seq<u8>, m: F, b: u8, g: F)
    requires folds(f, l, m), m.step(b, g),
    ensures folds(f, l.push(b), g),
{
    assert(l.push(b).drop_last() =~= l);
    assert(folds(f, l.push(b).drop_last(), m) && m.step(l.push(b).last(), g));
}

pub proof fn folds_trans<F: FnByte>(f: F, a: Seq<u8>, m: F, b: Seq<u8>, g: F)
    requires folds(f, a, m), folds(m, b, g),
    ensures folds(f, a + b, g),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        let x = choose|x: F| folds(m, b.drop_last(), x) && #[trigger] x.step(b.last(), g);
        folds_trans(f, a, m, b.drop_last(), x);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(folds(f, (a + b).drop_last(), x) && x.step((a + b).last(), g));
    }
}

pub proof fn fold_ok_next<F: FnByte>(f: F, a: Seq<u8>, m: F, b: Seq<u8>)
    requires fold_ok(f, a + b), folds(f, a, m),
    ensures fold_ok(m, b), b.len() > 0 ==> m.pre(b[0]),
{
    assert forall|i: int, x: F| 0 <= i < b.len() && #[trigger] folds(m, b.take(i), x) implies x.pre(b[i]) by {
        folds_trans(f, a, m, b.take(i), x);
        assert(a + b.take(i) =~= (a + b).take(a.len() + i));
        assert((a + b)[a.len() + i] == b[i]);
    }
    if b.len() > 0 { assert(b.take(0) =~= Seq::<u8>::empty()); assert(folds(m, b.take(0), m)); }
}

pub proof fn fold_ok_prefix<F: FnByte>(f: F, a: Seq<u8>, b: Seq<u8>)
    requires fold_ok(f, a + b),
    ensures fold_ok(f, a),
{
    assert forall|i: int, x: F| 0 <= i < a.len() && #[trigger] folds(f, a.take(i), x) implies x.pre(a[i]) by {
        assert(a.take(i) =~= (a + b).take(i));
        assert((a + b)[i] == a[i]);
    }
}

// ---- text ------------------------------------------------------------------------------
// "XX " for each byte
pub open spec fn hex_items(l: Seq<u8>) -> Seq<u8>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { hex_items(l.drop_last()) + go_hex2(l.last()) + seq![32u8] } }

// "[" XX " " XX ... "]"
pub open spec fn bs_text(l: Seq<u8>) -> Seq<u8> {
    if l.len() == 0 { seq![91u8, 93u8] } else { seq![91u8] + hex_items(l.drop_last()) + go_hex2(l.last()) + seq![93u8] }
}

// what the steps of a function add up to
pub proof fn folds_list<F: FnByte>(get: spec_fn(F) -> Seq<u8>, f: F, l: Seq<u8>, g: F)
    requires folds(f, l, g), forall|x: F, b: u8, y: F| #[trigger] x.step(b, y) ==> get(y) == get(x).push(b),
    ensures get(g) =~= get(f) + l,
    decreases l.len(),
{
    if l.len() > 0 {
        let m = choose|m: F| folds(f, l.drop_last(), m) && #[trigger] m.step(l.last(), g);
        folds_list(get, f, l.drop_last(), m);
    }
}

pub proof fn folds_text<F: FnByte>(get: spec_fn(F) -> Seq<u8>, f: F, l: Seq<u8>, g: F)
    requires folds(f, l, g), forall|x: F, b: u8, y: F| #[trigger] x.step(b, y) ==> get(y) == get(x) + (go_hex2(b) + seq![32u8]),
    ensures get(g) =~= get(f) + hex_items(l),
    decreases l.len(),
{
    if l.len() > 0 {
        let m = choose|m: F| folds(f, l.drop_last(), m) && #[trigger] m.step(l.last(), g);
        folds_text(get, f, l.drop_last(), m);
    }
}

pub proof fn folds_count<F: FnByte>(get: spec_fn(F) -> int, f: F, l: Seq<u8>, g: F)
    requires folds(f, l, g), forall|x: F, b: u8, y: F| #[trigger] x.step(b, y) ==> get(y) == get(x) + 3,
    ensures get(g) == get(f) + 3 * l.len(),
    decreases l.len(),
{
    if l.len() > 0 {
        let m = choose|m: F| folds(f, l.drop_last(), m) && #[trigger] m.step(l.last(), g);
        folds_count(get, f, l.drop_last(), m);
    }
}

pub proof fn folds_count_ok<F: FnByte>(get: spec_fn(F) -> int, f: F, l: Seq<u8>)
    requires
        get(f) == 0, l.len() <= 256,
        forall|x: F, b: u8, y: F| #[trigger] x.step(b, y) ==> get(y) == get(x) + 3,
        forall|x: F, b: u8| 0 <= get(x) <= 3 * 255 ==> #[trigger] x.pre(b),
    ensures fold_ok(f, l),
{
    assert forall|i: int, m: F| 0 <= i < l.len() && #[trigger] folds(f, l.take(i), m) implies m.pre(l[i]) by {
        folds_count(get, f, l.take(i), m);
    }
}

pub proof fn hex_items_len(l: Seq<u8>)
    ensures hex_items(l).len() == 3 * l.len(),
    decreases l.len(),
{ if l.len() > 0 { hex_items_len(l.drop_last()); } }

// the text with separators between, before it is closed
pub open spec fn bs_open(l: Seq<u8>) -> Seq<u8> {
    if l.len() == 0 { seq![91u8] } else { seq![91u8] + hex_items(l.drop_last()) + go_hex2(l.last()) }
}
pub proof fn bs_open_next(l: Seq<u8>)
    ensures
        l.len() > 1 ==> bs_open(l) == bs_open(l.drop_last()) + seq![32u8] + go_hex2(l.last()),
        bs_text(l) == bs_open(l) + seq![93u8],
{
    if l.len() > 1 {
        let p = l.drop_last();
        assert(hex_items(p) == hex_items(p.drop_last()) + go_hex2(p.last()) + seq![32u8]);
        assert(bs_open(l) =~= bs_open(p) + seq![32u8] + go_hex2(l.last()));
    }
    assert(bs_text(l) =~= bs_open(l) + seq![93u8]);
}

pub proof fn folds_open<F: FnByte>(get: spec_fn(F) -> Seq<u8>, first: spec_fn(F) -> bool, f: F, l: Seq<u8>, g: F)
    requires
        folds(f, l, g), first(f), get(f) == seq![91u8],
        forall|x: F, b: u8, y: F| #[trigger] x.step(b, y) ==> !first(y) && get(y) == (if first(x) { get(x) + go_hex2(b) } else { get(x) + seq![32u8] + go_hex2(b) }),
    ensures get(g) =~= bs_open(l), first(g) == (l.len() == 0),
    decreases l.len(),
{
    if l.len() > 0 {
        let p = l.drop_last();
        let m = choose|m: F| folds(f, l.drop_last(), m) && #[trigger] m.step(l.last(), g);
        folds_open(get, first, f, p, m);
        bs_open_next(l);
        if l.len() == 1 { assert(hex_items(p) =~= Seq::<u8>::empty()); assert(bs_open(l) =~= seq![91u8] + go_hex2(l.last())); }
    }
}

pub proof fn bs_joined(items: Seq<Seq<u8>>, l: Seq<u8>)
    requires items.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] items[i] == go_hex2(l[i]),
    ensures seq![91u8] + str_join(items, seq![32u8]) =~= bs_open(l),
    decreases l.len(),
{
    if l.len() > 0 {
        let p = l.drop_last();
        let q = items.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] q[i] == go_hex2(p[i]) by { assert(items[i] == go_hex2(l[i])); }
        bs_joined(q, p);
        bs_open_next(l);
        assert(items.last() == go_hex2(l.last()));
        if l.len() == 1 {
            assert(hex_items(p) =~= Seq::<u8>::empty());
            assert(bs_open(l) =~= seq![91u8] + items[0]);
        }
    }
}

// a listing grown from below
pub proof fn increasing_push(s: Seq<u8>, b: u8)
    requires increasing(s), forall|c: u8| #[trigger] s.contains(c) ==> c < b,
    ensures increasing(s.push(b)), forall|c: u8| #[trigger] s.push(b).contains(c) == (s.contains(c) || c == b),
{
    let t = s.push(b);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] < t[j] by {
        if j == s.len() { assert(s.contains(s[i])); }
    }
    assert forall|c: u8| #[trigger] t.contains(c) == (s.contains(c) || c == b) by {
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i] == c); }
        if c == b { assert(t[s.len() as int] == b); }
        if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; if i < s.len() { assert(s[i] == c); } }
    }
}

// increasing listings of the same bytes are the same
pub proof fn increasing_same(s: Seq<u8>, t: Seq<u8>)
    requires increasing(s), increasing(t), forall|c: u8| #[trigger] s.contains(c) == t.contains(c),
    ensures s =~= t,
    decreases s.len(),
{
    if s.len() == 0 {
        if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); }
    } else {
        assert(s.contains(s[0]));
        assert(t.contains(s[0]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[0];
        assert(t.contains(t[0])); assert(s.contains(t[0]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t[0];
        assert(s[0] == t[0]) by { if j > 0 { assert(t[0] < t[j]); } if i > 0 { assert(s[0] < s[i]); } }
        let s1 = s.skip(1);
        let t1 = t.skip(1);
        assert forall|c: u8| #[trigger] s1.contains(c) == t1.contains(c) by {
            if s1.contains(c) {
                let k = choose|k: int| 0 <= k < s1.len() && s1[k] == c;
                assert(s[k + 1] == c && s[0] < s[k + 1]);
                assert(s.contains(c));
                let m = choose|m: int| 0 <= m < t.len() && t[m] == c;
                if m == 0 { assert(t[0] == c); assert(false); }
                assert(t1[m - 1] == t[m]);
            }
            if t1.contains(c) {
                let k = choose|k: int| 0 <= k < t1.len() && t1[k] == c;
                assert(t[k + 1] == c && t[0] < t[k + 1]);
                assert(t.contains(c));
                assert(s.contains(c));
                let m = choose|m: int| 0 <= m < s.len() && s[m] == c;
                if m == 0 { assert(s[0] == c); assert(false); }
                assert(s1[m - 1] == s[m]);
            }
        }
        increasing_same(s1, t1);
        assert(s =~= seq![s[0]] + s1);
        assert(t =~= seq![t[0]] + t1);
    }
}

} // verus!
