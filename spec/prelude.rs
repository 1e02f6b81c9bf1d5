// Meaning of the Go operations the translation uses. Everything marked
// external_body here is part of the trusted base (listed in the evidence).
verus! {

// vacuity runs
pub uninterp spec fn smoke_nd(k: int) -> bool;

// ---- control -------------------------------------------------------------
#[verifier::external_body]
pub fn cond(b: Ghost<bool>) -> (r: bool)
    ensures r == b@,
{ unimplemented!() }

#[verifier::external_body]
pub fn go_unreachable<T>() -> (r: T)
    requires false,
{ unimplemented!() }

#[verifier::external_body]
pub fn go_havoc<T>() -> (r: Ghost<T>)
{ unimplemented!() }

// ---- integers --------------------------------------------------------------
pub spec const GO_MAXINT: int = 0x7fff_ffff_ffff_ffff;
// no container has more elements than this: memory is finite
pub spec const GO_MAXLEN: int = 0x00ff_ffff_ffff_ffff;
pub spec const GO_MININT: int = -0x8000_0000_0000_0000;

pub open spec fn go_in_i64(x: int) -> bool { GO_MININT <= x <= GO_MAXINT }
pub open spec fn go_in_i32(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
pub open spec fn go_in_i16(x: int) -> bool { -0x8000 <= x <= 0x7fff }
pub open spec fn go_in_i8(x: int) -> bool { -0x80 <= x <= 0x7f }

pub open spec fn go_div(a: int, b: int) -> int {
    if a >= 0 && b > 0 { a / b } else if a >= 0 { -(a / (-b)) } else if b > 0 { -((-a) / b) } else { (-a) / (-b) }
}
pub open spec fn go_rem(a: int, b: int) -> int { a - go_div(a, b) * b }
pub open spec fn go_min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn go_max(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn go_to_u8(x: int) -> u8 { (x % 256) as u8 }
pub open spec fn go_to_u16(x: int) -> u16 { (x % 0x1_0000) as u16 }
pub open spec fn go_to_u32(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }
pub open spec fn go_to_u64(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }

// wrapping products
pub open spec fn go_mul_u8(a: u8, b: u8) -> u8 { ((a as int * b as int) % 256) as u8 }
pub open spec fn go_mul_u16(a: u16, b: u16) -> u16 { ((a as int * b as int) % 0x1_0000) as u16 }
pub open spec fn go_mul_u32(a: u32, b: u32) -> u32 { ((a as int * b as int) % 0x1_0000_0000) as u32 }
pub open spec fn go_mul_u64(a: u64, b: u64) -> u64 { ((a as int * b as int) % 0x1_0000_0000_0000_0000) as u64 }

// ---- containers --------------------------------------------------------------
pub open spec fn go_make<T>(n: int, z: T) -> Seq<T> { Seq::new(n as nat, |i: int| z) }

pub open spec fn go_copy<T>(d: Seq<T>, lo: int, s: Seq<T>) -> Seq<T> {
    Seq::new(d.len(), |i: int| if lo <= i < lo + s.len() { s[i - lo] } else { d[i] })
}

#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct GoMap<K, V> { pub isnil: bool, pub m: Map<K, V> }

impl<K, V> GoMap<K, V> {
    pub open spec fn nil_map() -> Self { GoMap { isnil: true, m: Map::empty() } }
    pub open spec fn new_map() -> Self { GoMap { isnil: false, m: Map::empty() } }
    pub open spec fn put(self, k: K, v: V) -> Self { GoMap { isnil: self.isnil, m: self.m.insert(k, v) } }
    pub open spec fn del(self, k: K) -> Self { GoMap { isnil: self.isnil, m: self.m.remove(k) } }
}
pub open spec fn go_map_get<K, V>(m: GoMap<K, V>, k: K, z: V) -> V { if m.m.dom().contains(k) { m.m[k] } else { z } }
pub open spec fn go_map_len<K, V>(m: GoMap<K, V>) -> int { m.m.dom().len() as int }

#[verifier::external_body]
pub fn go_pick<K>(s: Ghost<Set<K>>) -> (r: Ghost<K>)
    requires s@.len() > 0,
    ensures s@.contains(r@),
{ unimplemented!() }

// ---- errors ---------------------------------------------------------------------
// E: made by the running code, later ones with larger numbers; G: value of a package variable
pub enum Err { Nil, E(int), G(int) }

#[verifier::external_body]
pub fn go_new_err() -> (r: Ghost<Err>)
    ensures r@ is E,
{ unimplemented!() }

// ---- dynamic values ------------------------------------------------------------
pub struct GoReader { pub id: int }
// what io.ReadAll gets out of a reader: its bytes up to the end or a failure
pub uninterp spec fn reader_data(r: GoReader) -> Seq<u8>;
pub uninterp spec fn reader_fails(r: GoReader) -> bool;

pub enum GoAny { Nil, Str(Seq<u8>), Bytes(Seq<u8>), Buffer(Option<Seq<u8>>), Reader(GoReader), Other(int) }

pub uninterp spec fn buffer_reader(b: Option<Seq<u8>>) -> GoReader;
pub open spec fn go_any_reader(a: GoAny) -> GoReader {
    match a { GoAny::Reader(r) => r, GoAny::Buffer(b) => buffer_reader(b), _ => arbitrary() }
}

#[verifier::external_body]
pub fn go_read_all(r: Ghost<GoReader>) -> (ret: Ghost<(Seq<u8>, Err)>)
    ensures
        !reader_fails(r@) ==> ret@.0 == reader_data(r@) && ret@.1 is Nil,
        reader_fails(r@) ==> !(ret@.1 is Nil),
{ unimplemented!() }

// ---- strings -----------------------------------------------------------------------
// strings.ReplaceAll for a non-empty old: leftmost occurrences, left to right
pub open spec fn go_has_prefix(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn go_has_suffix(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }

pub open spec fn str_replace_all(s: Seq<u8>, old: Seq<u8>, new: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if old.len() == 0 { arbitrary() }
    else if s.len() == 0 { s }
    else if go_has_prefix(s, old) { new + str_replace_all(s.subrange(old.len() as int, s.len() as int), old, new) }
    else { seq![s[0]] + str_replace_all(s.subrange(1, s.len() as int), old, new) }
}

// strings.NewReplacer of single bytes
pub struct GoReplacer { pub swap: spec_fn(u8) -> Seq<u8> }
pub open spec fn str_swap(s: Seq<u8>, f: spec_fn(u8) -> Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { str_swap(s.drop_last(), f) + f(s.last()) }
}

pub open spec fn str_join(p: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] }
    else { str_join(p.drop_last(), sep) + sep + p.last() }
}

pub open spec fn go_index_byte(s: Seq<u8>, b: u8) -> int
    decreases s.len(),
{
    if s.len() == 0 { -1 } else if s[0] == b { 0 } else {
        let r = go_index_byte(s.subrange(1, s.len() as int), b);
        if r < 0 { -1 } else { r + 1 }
    }
}

pub open spec fn go_hexdigit(x: u8) -> u8 { if x < 10 { (48 + x) as u8 } else { (55 + x) as u8 } }
// fmt %02X of a byte
pub open spec fn go_hex2(b: u8) -> Seq<u8> { seq![go_hexdigit((b / 16) as u8), go_hexdigit((b % 16) as u8)] }
pub uninterp spec fn go_itoa(x: int) -> Seq<u8>;

// ---- sort --------------------------------------------------------------------------
pub open spec fn int_sorted(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }

#[verifier::external_body]
pub fn go_search_ints(a: Ghost<Seq<int>>, x: Ghost<int>) -> (r: Ghost<int>)
    ensures
        0 <= r@ <= a@.len(),
        int_sorted(a@) ==> (forall|i: int| 0 <= i < r@ ==> a@[i] < x@) && (forall|i: int| r@ <= i < a@.len() ==> a@[i] >= x@),
{ unimplemented!() }

#[verifier::external_body]
pub fn go_sort_ints(a: Ghost<Seq<int>>) -> (r: Ghost<Seq<int>>)
    ensures int_sorted(r@), r@.to_multiset() =~= a@.to_multiset(), r@.len() == a@.len(),
{ unimplemented!() }

// ---- math/bits ------------------------------------------------------------------------
pub open spec fn go_bit(v: u64, i: int) -> bool { (v >> (i as u64)) & 1 == 1 }
pub open spec fn go_popcount_from(v: u64, i: int) -> int
    decreases 64 - i,
{ if i >= 64 { 0 } else { (if go_bit(v, i) { 1int } else { 0int }) + go_popcount_from(v, i + 1) } }
pub open spec fn go_popcount(v: u64) -> int { go_popcount_from(v, 0) }
pub open spec fn go_ctz_from(v: u64, i: int) -> int
    decreases 64 - i,
{ if i >= 64 { 64 } else if go_bit(v, i) { i } else { go_ctz_from(v, i + 1) } }
pub open spec fn go_ctz(v: u64) -> int { go_ctz_from(v, 0) }
pub open spec fn go_bitlen_from(v: u64, i: int) -> int
    decreases i,
{ if i <= 0 { 0 } else if go_bit(v, i - 1) { i } else { go_bitlen_from(v, i - 1) } }
pub open spec fn go_bitlen(v: u64) -> int { go_bitlen_from(v, 64) }

} // verus!
