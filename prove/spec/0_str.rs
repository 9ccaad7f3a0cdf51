//@broadcast group_str
// Strings as sequences of characters.  The external_body items below are assumptions about the
// standard library's str, String and char; nothing here describes code of /repo.
verus! {

/// UTF-8 length of a character
pub open spec fn clen(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// UTF-8 length of a text
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
/// byte offset `b` is a character boundary of `s`
#[verifier::opaque]
pub open spec fn bnd(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b }
/// the number of characters before byte offset `b`
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b }

pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_blen_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_blen_min(s: Seq<char>)
    ensures s.len() <= blen(s) <= 4 * s.len(), s.len() == 0 ==> blen(s) == 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_blen_min(s.drop_last()); } }
pub proof fn lemma_blen_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures blen(s) == blen(s.take(k)) + blen(s.skip(k)),
{ assert(s =~= s.take(k) + s.skip(k)); lemma_blen_add(s.take(k), s.skip(k)); }
pub proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)), blen(s.take(j)) == blen(s.take(i)) + blen(s.subrange(i, j)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lemma_blen_add(s.take(i), s.subrange(i, j));
    lemma_blen_min(s.subrange(i, j));
}
pub proof fn lemma_blen_one(c: char)
    ensures blen(seq![c]) == clen(c),
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(seq![c].last() == c); assert(blen(Seq::<char>::empty()) == 0); }
/// all characters take one byte
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> clen(#[trigger] s[i]) == 1 }
pub proof fn lemma_blen_ascii(s: Seq<char>)
    requires ascii(s),
    ensures blen(s) == s.len(),
    decreases s.len(),
{ if s.len() > 0 { assert(ascii(s.drop_last())) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies clen(#[trigger] s.drop_last()[i]) == 1 by { assert(s.drop_last()[i] == s[i]); } } lemma_blen_ascii(s.drop_last()); assert(clen(s[s.len() - 1]) == 1); } }

pub broadcast proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures bnd(s, #[trigger] blen(s.take(k))), cidx(s, blen(s.take(k))) == k, blen(s.take(k)) <= blen(s), k <= blen(s.take(k)),
{
    reveal(bnd); reveal(cidx);
    let b = blen(s.take(k));
    let j = cidx(s, b);
    assert(bnd(s, b));
    assert(0 <= j <= s.len() && blen(s.take(j)) == b);
    if j < k { lemma_blen_mono(s, j, k); }
    if k < j { lemma_blen_mono(s, k, j); }
    lemma_blen_split(s, k);
    lemma_blen_min(s.skip(k));
    lemma_blen_min(s.take(k));
}
pub broadcast proof fn lemma_cidx_zero(s: Seq<char>)
    ensures #![trigger bnd(s, 0)] #![trigger cidx(s, 0)] bnd(s, 0) && cidx(s, 0) == 0,
{ assert(s.take(0) =~= Seq::<char>::empty()); assert(blen(s.take(0)) == 0); lemma_cidx(s, 0); }
pub broadcast proof fn lemma_cidx_full(s: Seq<char>)
    ensures bnd(s, #[trigger] blen(s)), cidx(s, blen(s)) == s.len(), s.len() <= blen(s),
{ assert(s.take(s.len() as int) =~= s); lemma_cidx(s, s.len() as int); }
/// a prefix of `s` ends at a boundary
pub broadcast proof fn lemma_cidx_prefix(s: Seq<char>, p: Seq<char>)
    requires #[trigger] starts_at(s, p),
    ensures bnd(s, blen(p)), cidx(s, blen(p)) == p.len(), blen(p) <= blen(s),
{ lemma_cidx(s, p.len() as int); }
/// the first k characters are ASCII
pub broadcast proof fn lemma_cidx_ascii(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), #[trigger] ascii(s.take(k)),
    ensures bnd(s, k), cidx(s, k) == k, k <= blen(s),
{ lemma_blen_ascii(s.take(k)); lemma_cidx(s, k); }

/// `w` stands at the beginning of `r`
pub open spec fn starts_at(r: Seq<char>, w: Seq<char>) -> bool { w.len() <= r.len() && r.take(w.len() as int) == w }
/// the first place of `r` from `i` on where `w` stands, if any
pub open spec fn find_at(r: Seq<char>, w: Seq<char>, i: int) -> Option<int> decreases r.len() + 1 - i {
    if i < 0 || i > r.len() { None } else if starts_at(r.skip(i), w) { Some(i) } else { find_at(r, w, i + 1) }
}
pub proof fn lemma_find_at(r: Seq<char>, w: Seq<char>, i: int)
    requires 0 <= i,
    ensures match find_at(r, w, i) {
        Some(k) => i <= k <= r.len() && starts_at(r.skip(k), w) && forall|j: int| i <= j < k ==> !starts_at(#[trigger] r.skip(j), w),
        None => forall|j: int| i <= j <= r.len() ==> !starts_at(#[trigger] r.skip(j), w),
    },
    decreases r.len() + 1 - i,
{ if i <= r.len() && !starts_at(r.skip(i), w) { lemma_find_at(r, w, i + 1); } }
pub broadcast proof fn lemma_find(r: Seq<char>, w: Seq<char>)
    ensures match #[trigger] find_at(r, w, 0) {
        Some(k) => 0 <= k && k + w.len() <= r.len() && starts_at(r.skip(k), w) && bnd(r, blen(r.take(k)))
            && bnd(r, blen(r.take(k)) + blen(w)) && cidx(r, blen(r.take(k)) + blen(w)) == k + w.len() && blen(r.take(k)) + blen(w) <= blen(r)
            && forall|j: int| 0 <= j < k ==> !starts_at(#[trigger] r.skip(j), w),
        None => forall|j: int| 0 <= j <= r.len() ==> !starts_at(#[trigger] r.skip(j), w),
    },
{
    lemma_find_at(r, w, 0);
    if let Some(k) = find_at(r, w, 0) {
        let e = k + w.len();
        assert(r.take(e) =~= r.take(k) + r.skip(k).take(w.len() as int));
        lemma_blen_add(r.take(k), w);
        lemma_cidx(r, k);
        lemma_cidx(r, e);
    }
}
/// the end of the first `k` characters and the beginning of the rest
pub broadcast proof fn lemma_skip_skip(s: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= s.len(),
    ensures #[trigger] s.skip(i).skip(j) == s.skip(i + j),
{ assert(s.skip(i).skip(j) =~= s.skip(i + j)); }

pub broadcast group group_str { lemma_cidx, lemma_cidx_zero, lemma_cidx_full, lemma_cidx_prefix, lemma_cidx_ascii, lemma_find, lemma_skip_skip, lemma_byte0 }

// ---- str ----
/// the first byte of a text tells whether, and which, ASCII character it begins with
pub broadcast proof fn lemma_byte0(s: Seq<char>)
    requires s.len() > 0,
    ensures (s[0] as u32) < 0x80 ==> (#[trigger] vstd::utf8::encode_utf8(s)[0]) == s[0] as u8, (s[0] as u32) >= 0x80 ==> vstd::utf8::encode_utf8(s)[0] >= 0x80,
        vstd::utf8::encode_utf8(s).len() > 0,
{
    let c = s[0] as u32;
    assert(vstd::utf8::encode_utf8(s) =~= vstd::utf8::encode_scalar(c) + vstd::utf8::encode_utf8(s.drop_first()));
    assert(vstd::utf8::encode_scalar(c).len() >= 1);
    if c < 0x80 { assert(c < 0x80 ==> (c & 0x7F) as u8 == c as u8) by (bit_vector); assert(vstd::utf8::encode_scalar(c)[0] == c as u8); }
    else if c < 0x800 { assert(0xC0u8 | ((c >> 6) & 0x1F) as u8 >= 0x80) by (bit_vector); assert(vstd::utf8::encode_scalar(c)[0] >= 0x80); }
    else if c < 0x10000 { assert(0xE0u8 | ((c >> 12) & 0x0F) as u8 >= 0x80) by (bit_vector); assert(vstd::utf8::encode_scalar(c)[0] >= 0x80); }
    else { assert(0xF0u8 | ((c >> 18) & 0x07) as u8 >= 0x80) by (bit_vector); assert(vstd::utf8::encode_scalar(c)[0] >= 0x80); }
}
/// the bytes vstd says a text has are as many as counted here
pub proof fn lemma_utf8(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s).len() == blen(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let l = seq![s.last()];
        lemma_utf8(s.drop_last());
        vstd::utf8::encode_utf8_concat(s.drop_last(), l);
        assert(s.drop_last() + l =~= s);
        assert(l.drop_first() =~= Seq::<char>::empty());
        assert(vstd::utf8::encode_utf8(l) =~= vstd::utf8::encode_scalar(l[0] as u32) + vstd::utf8::encode_utf8(l.drop_first()));
        assert(vstd::utf8::encode_utf8(Seq::<char>::empty()).len() == 0);
        assert(vstd::utf8::encode_scalar(l[0] as u32).len() == clen(l[0]));
    }
}
// The functions below stand for str's methods.  They are programs over vstd's as_bytes, unicode_len,
// get_char and substring_char that are verified here.
pub fn str_len(s: &str) -> (r: usize)
    ensures r == blen(s@),
{ proof { lemma_utf8(s@); } s.as_bytes().len() }
pub proof fn lemma_cidx_mono(s: Seq<char>, a: int, b: int)
    requires bnd(s, a), bnd(s, b), a <= b,
    ensures 0 <= cidx(s, a) <= cidx(s, b) <= s.len(), a == blen(s.take(cidx(s, a))), b == blen(s.take(cidx(s, b))),
{
    reveal(bnd); reveal(cidx);
    let (i, j) = (cidx(s, a), cidx(s, b));
    assert(0 <= i <= s.len() && blen(s.take(i)) == a);
    assert(0 <= j <= s.len() && blen(s.take(j)) == b);
    if j < i { lemma_blen_mono(s, j, i); }
}
/// the number of characters before a byte offset, if it is a boundary
fn char_at_byte(s: &str, b: usize) -> (r: Option<usize>)
    ensures match r { Some(k) => bnd(s@, b as int) && k == cidx(s@, b as int) && k <= s@.len(), None => !bnd(s@, b as int) },
{
    let n = s.unicode_len();
    let total = str_len(s);
    let mut k: usize = 0;
    let mut at: usize = 0;
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); }
    while k < n && at < b
        invariant k <= n, n == s@.len(), at == blen(s@.take(k as int)), total == blen(s@), k > 0 ==> blen(s@.take(k - 1)) < b,
        decreases n - k,
    {
        let c = s.get_char(k);
        proof {
            lemma_blen_split(s@, k + 1);
            lemma_blen_min(s@.skip(k + 1));
            assert(s@.take(k + 1).drop_last() =~= s@.take(k as int));
            assert(s@.take(k + 1).last() == c);
        }
        at = at + c.__len_utf8();
        k = k + 1;
    }
    if at == b { proof { lemma_cidx(s@, k as int); } Some(k) }
    else {
        proof {
            if bnd(s@, b as int) {
                lemma_cidx_mono(s@, b as int, b as int);
                let i = cidx(s@, b as int);
                if i < k { lemma_blen_mono(s@, i, k - 1); }
                if k < i { lemma_blen_mono(s@, k as int, i); }
            }
        }
        None
    }
}
pub fn str_get<'a>(s: &'a str, lo: usize, hi: usize) -> (r: Option<&'a str>)
    ensures match r {
        Some(x) => bnd(s@, lo as int) && bnd(s@, hi as int) && lo <= hi && x@ == s@.subrange(cidx(s@, lo as int), cidx(s@, hi as int)),
        None => !(bnd(s@, lo as int) && bnd(s@, hi as int) && lo <= hi),
    },
{
    if lo > hi { return None; }
    match char_at_byte(s, lo) {
        Some(i) => match char_at_byte(s, hi) {
            Some(j) => { proof { lemma_cidx_mono(s@, lo as int, hi as int); } Some(s.substring_char(i, j)) }
            None => None,
        },
        None => None,
    }
}
pub fn str_get_from<'a>(s: &'a str, lo: usize) -> (r: Option<&'a str>)
    ensures match r { Some(x) => bnd(s@, lo as int) && x@ == s@.skip(cidx(s@, lo as int)), None => !bnd(s@, lo as int) },
{
    match char_at_byte(s, lo) { Some(i) => { let r = s.substring_char(i, s.unicode_len()); assert(r@ =~= s@.skip(i as int)); Some(r) } None => None }
}
pub fn str_slice<'a>(s: &'a str, lo: usize, hi: usize) -> (r: &'a str)
    requires bnd(s@, lo as int), bnd(s@, hi as int), lo <= hi,
    ensures r@ == s@.subrange(cidx(s@, lo as int), cidx(s@, hi as int)),
{ match str_get(s, lo, hi) { Some(r) => r, None => panics() } }
pub fn str_slice_from<'a>(s: &'a str, lo: usize) -> (r: &'a str)
    requires bnd(s@, lo as int),
    ensures r@ == s@.skip(cidx(s@, lo as int)),
{ match str_get_from(s, lo) { Some(r) => r, None => panics() } }
pub fn str_split_at<'a>(s: &'a str, lo: usize) -> (r: (&'a str, &'a str))
    requires bnd(s@, lo as int),
    ensures r.0@ == s@.take(cidx(s@, lo as int)), r.1@ == s@.skip(cidx(s@, lo as int)),
{
    match char_at_byte(s, lo) {
        Some(i) => { let r = s.substring_char(0, i); assert(r@ =~= s@.take(i as int)); (r, str_slice_from(s, lo)) }
        None => panics(),
    }
}
fn chars_of(s: &str) -> (r: VecDeque<char>)
    ensures r@ == s@,
{
    let n = s.unicode_len();
    let mut d: VecDeque<char> = VecDeque::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == s@.len(), d@ =~= s@.take(i as int),
        decreases n - i,
    { d.push_back(s.get_char(i)); i = i + 1; }
    assert(s@.take(i as int) =~= s@);
    d
}
/// what str::starts_with, find and strip_prefix take: a character or a string
pub trait PatModel {
    spec fn pat(&self) -> Seq<char>;
    fn __pat(&self) -> (r: VecDeque<char>) ensures r@ == self.pat();
}
impl PatModel for char {
    open spec fn pat(&self) -> Seq<char> { seq![*self] }
    fn __pat(&self) -> (r: VecDeque<char>) { let mut d = VecDeque::new(); d.push_back(*self); assert(d@ =~= seq![*self]); d }
}
impl<'a> PatModel for &'a str {
    open spec fn pat(&self) -> Seq<char> { self@ }
    fn __pat(&self) -> (r: VecDeque<char>) { chars_of(*self) }
}
impl<'a, 'b> PatModel for &'b &'a str {
    open spec fn pat(&self) -> Seq<char> { (**self)@ }
    fn __pat(&self) -> (r: VecDeque<char>) { chars_of(**self) }
}
impl<'a> PatModel for &'a String {
    open spec fn pat(&self) -> Seq<char> { self@ }
    fn __pat(&self) -> (r: VecDeque<char>) { chars_of(self.as_str()) }
}
/// whether the pattern stands at character `k`
fn stands_at(s: &str, k: usize, p: &VecDeque<char>) -> (r: bool)
    requires k <= s@.len(),
    ensures r == starts_at(s@.skip(k as int), p@),
{
    let n = s.unicode_len();
    let m = p.len();
    if m > n - k { return false; }
    let mut i: usize = 0;
    while i < m
        invariant i <= m, m == p@.len(), n == s@.len(), k + m <= n, forall|j: int| 0 <= j < i ==> #[trigger] s@[k + j] == p@[j],
        decreases m - i,
    {
        match p.get(i) {
            Some(c) => if s.get_char(k + i) != *c { assert(s@.skip(k as int).take(m as int)[i as int] != p@[i as int]); return false; },
            None => {}
        }
        i = i + 1;
    }
    assert(s@.skip(k as int).take(m as int) =~= p@) by {
        assert forall|j: int| 0 <= j < m implies (#[trigger] s@.skip(k as int).take(m as int)[j]) == p@[j] by { assert(s@[k + j] == p@[j]); }
    }
    true
}
pub fn str_starts_with<P: PatModel>(s: &str, p: P) -> (r: bool)
    ensures r == starts_at(s@, p.pat()),
{ assert(s@.skip(0) =~= s@); stands_at(s, 0, &p.__pat()) }
pub fn str_find<P: PatModel>(s: &str, p: P) -> (r: Option<usize>)
    ensures match r { Some(b) => find_at(s@, p.pat(), 0) is Some && b == blen(s@.take(find_at(s@, p.pat(), 0)->Some_0)), None => find_at(s@, p.pat(), 0) is None }, blen(s@) <= usize::MAX,
{
    let d = p.__pat();
    let n = s.unicode_len();
    let total = str_len(s);
    let mut k: usize = 0;
    let mut at: usize = 0;
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); }
    loop
        invariant k <= n, n == s@.len(), at == blen(s@.take(k as int)), total == blen(s@), d@ == p.pat(), find_at(s@, p.pat(), 0) == find_at(s@, p.pat(), k as int),
        decreases n - k,
    {
        if stands_at(s, k, &d) { return Some(at); }
        if k == n { return None; }
        let c = s.get_char(k);
        proof {
            lemma_blen_split(s@, k + 1);
            lemma_blen_min(s@.skip(k + 1));
            assert(s@.take(k + 1).drop_last() =~= s@.take(k as int));
            assert(s@.take(k + 1).last() == c);
        }
        at = at + c.__len_utf8();
        k = k + 1;
    }
}
pub fn str_strip_prefix<'a, P: PatModel>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures match r { Some(x) => starts_at(s@, p.pat()) && x@ == s@.skip(p.pat().len() as int), None => !starts_at(s@, p.pat()) }, blen(s@) <= usize::MAX,
{
    let d = p.__pat();
    let _total = str_len(s);
    assert(s@.skip(0) =~= s@);
    if stands_at(s, 0, &d) { let r = s.substring_char(d.len(), s.unicode_len()); assert(r@ =~= s@.skip(d@.len() as int)); Some(r) } else { None }
}
pub fn str_to_string(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }

// ---- parsing of numbers ----
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn are_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dec_val(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) }
}
pub open spec fn signed(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == '-' || s[0] == '+') }
/// what i32::from_str accepts, and the value
pub open spec fn int_val(s: Seq<char>) -> Option<int> {
    let d = if signed(s) { s.skip(1) } else { s };
    let v = if signed(s) && s[0] == '-' { -dec_val(d) } else { dec_val(d) };
    if d.len() > 0 && are_digits(d) && -0x8000_0000 <= v <= 0x7fff_ffff { Some(v) } else { None }
}
/// the value f32::from_str gives to a text it accepts
pub uninterp spec fn float_val(s: Seq<char>) -> f32;
/// optional sign, digits, one dot, digits
pub open spec fn dotted(s: Seq<char>, dot: int) -> bool {
    0 <= dot < s.len() && s[dot] == '.' && are_digits(s.skip(dot + 1))
    && (are_digits(s.take(dot)) || (signed(s) && dot >= 1 && are_digits(s.subrange(1, dot))))
}
/// a dotted text has a digit
pub open spec fn has_digit(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i]) }
pub struct ParseErr { x: u8 }
pub trait ParseModel: Sized {
    spec fn parsed(s: Seq<char>, r: Option<Self>) -> bool;
    fn __parse(s: &str) -> (r: Result<Self, ParseErr>) ensures Self::parsed(s@, match r { Ok(v) => Some(v), Err(_) => None });
}
proof fn lemma_dec_val_nonneg(d: Seq<char>)
    requires are_digits(d),
    ensures dec_val(d) >= 0,
    decreases d.len(),
{ if d.len() > 0 { assert(is_digit(d[d.len() - 1])); assert(are_digits(d.drop_last())) by { assert forall|i: int| 0 <= i < d.drop_last().len() implies is_digit(#[trigger] d.drop_last()[i]) by { assert(is_digit(d[i])); } } lemma_dec_val_nonneg(d.drop_last()); } }
impl ParseModel for i32 {
    open spec fn parsed(s: Seq<char>, r: Option<i32>) -> bool { match r { Some(v) => int_val(s) == Some(v as int), None => int_val(s) is None } }
    fn __parse(s: &str) -> (r: Result<i32, ParseErr>) {
        let n = s.unicode_len();
        if n == 0 { return Err(ParseErr { x: 0 }); }
        let c0 = s.get_char(0);
        let neg = c0 == '-';
        let start: usize = if neg || c0 == '+' { 1 } else { 0 };
        let ghost d = if signed(s@) { s@.skip(1) } else { s@ };
        assert(d =~= s@.skip(start as int));
        if start == n { return Err(ParseErr { x: 0 }); }
        let mut k: usize = start;
        let mut acc: i64 = 0;
        let mut big = false;
        while k < n
            invariant start <= k <= n, n == s@.len(), d == s@.skip(start as int), d == (if signed(s@) { s@.skip(1) } else { s@ }), 0 <= acc <= 0x8000_0000, start <= 1,
                are_digits(d.take(k - start)), big ==> dec_val(d.take(k - start)) > 0x8000_0000, !big ==> acc == dec_val(d.take(k - start)),
            decreases n - k,
        {
            let c = s.get_char(k);
            assert(c == d[k - start]);
            if !c.__is_ascii_digit() { assert(!are_digits(d)); return Err(ParseErr { x: 0 }); }
            proof {
                let e = d.take(k + 1 - start);
                assert(e.drop_last() =~= d.take(k - start));
                assert(e.last() == c);
                assert(are_digits(e)) by { assert forall|i: int| 0 <= i < e.len() implies is_digit(#[trigger] e[i]) by { if i < k - start { assert(is_digit(d.take(k - start)[i])); } } }
                lemma_dec_val_nonneg(d.take(k - start));
                assert(dec_val(e) == dec_val(d.take(k - start)) * 10 + (c as u32 - '0' as u32));
            }
            if !big {
                let x = acc * 10 + (c as u32 - '0' as u32) as i64;
                if x > 0x8000_0000 { big = true; } else { acc = x; }
            }
            k = k + 1;
        }
        assert(d.take(k - start) =~= d);
        if big { return Err(ParseErr { x: 0 }); }
        if neg { Ok((0 - acc) as i32) } else if acc == 0x8000_0000 { Err(ParseErr { x: 0 }) } else { Ok(acc as i32) }
    }
}
impl ParseModel for f32 {
    open spec fn parsed(s: Seq<char>, r: Option<f32>) -> bool {
        &&& (r is Some ==> r->Some_0 == float_val(s))
        &&& ((exists|dot: int| #[trigger] dotted(s, dot)) ==> (r is Some <==> has_digit(s)))
    }
    #[verifier::external_body]
    fn __parse(s: &str) -> (r: Result<f32, ParseErr>) { unimplemented!() }
}
pub fn str_parse<T: ParseModel>(s: &str) -> (r: Result<T, ParseErr>)
    ensures T::parsed(s@, match r { Ok(v) => Some(v), Err(_) => None }),
{ T::__parse(s) }

// ---- char ----
pub uninterp spec fn uni_alphabetic(c: char) -> bool;
pub uninterp spec fn uni_numeric(c: char) -> bool;
pub uninterp spec fn uni_whitespace(c: char) -> bool;
pub open spec fn is_lower(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn is_upper(c: char) -> bool { 'A' <= c <= 'Z' }
pub trait CharModel {
    spec fn cv(&self) -> char;
    fn __len_utf8(&self) -> (r: usize) ensures r == clen(self.cv());
    fn __is_ascii_digit(&self) -> (r: bool) ensures r == is_digit(self.cv());
    fn __is_ascii_alphabetic(&self) -> (r: bool) ensures r == (is_lower(self.cv()) || is_upper(self.cv()));
    fn __is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (is_lower(self.cv()) || is_upper(self.cv()) || is_digit(self.cv()));
    fn __is_ascii_lowercase(&self) -> (r: bool) ensures r == is_lower(self.cv());
    fn __is_ascii_uppercase(&self) -> (r: bool) ensures r == is_upper(self.cv());
    fn __is_ascii_whitespace(&self) -> (r: bool) ensures r == (self.cv() == ' ' || self.cv() == '\t' || self.cv() == '\n' || self.cv() == '\r' || self.cv() as u32 == 12);
    fn __is_ascii_punctuation(&self) -> (r: bool) ensures r == (33 <= self.cv() as u32 <= 126 && !is_digit(self.cv()) && !is_lower(self.cv()) && !is_upper(self.cv()));
    fn __is_alphabetic(&self) -> (r: bool) ensures r == uni_alphabetic(self.cv());
    fn __is_numeric(&self) -> (r: bool) ensures r == uni_numeric(self.cv());
    fn __is_alphanumeric(&self) -> (r: bool) ensures r == (uni_alphabetic(self.cv()) || uni_numeric(self.cv()));
    fn __is_whitespace(&self) -> (r: bool) ensures r == uni_whitespace(self.cv());
}
impl CharModel for char {
    open spec fn cv(&self) -> char { *self }
    fn __len_utf8(&self) -> (r: usize) { let u = *self as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
    fn __is_ascii_digit(&self) -> (r: bool) { '0' <= *self && *self <= '9' }
    fn __is_ascii_alphabetic(&self) -> (r: bool) { self.__is_ascii_lowercase() || self.__is_ascii_uppercase() }
    fn __is_ascii_alphanumeric(&self) -> (r: bool) { self.__is_ascii_alphabetic() || self.__is_ascii_digit() }
    fn __is_ascii_lowercase(&self) -> (r: bool) { 'a' <= *self && *self <= 'z' }
    fn __is_ascii_uppercase(&self) -> (r: bool) { 'A' <= *self && *self <= 'Z' }
    fn __is_ascii_whitespace(&self) -> (r: bool) { *self == ' ' || *self == '\t' || *self == '\n' || *self == '\r' || *self as u32 == 12 }
    fn __is_ascii_punctuation(&self) -> (r: bool) { let u = *self as u32; 33 <= u && u <= 126 && !self.__is_ascii_alphanumeric() }
    #[verifier::external_body] fn __is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn __is_numeric(&self) -> (r: bool) { unimplemented!() }
    fn __is_alphanumeric(&self) -> (r: bool) { self.__is_alphabetic() || self.__is_numeric() }
    #[verifier::external_body] fn __is_whitespace(&self) -> (r: bool) { unimplemented!() }
}

// ---- iterators over characters: stand for std's Chars, CharIndices and Bytes ----
pub struct CharsIt<'a> { s: &'a str, d: VecDeque<char> }
impl<'a> CharsIt<'a> {
    #[verifier::type_invariant]
    closed spec fn inv(self) -> bool { self.d@.len() <= self.s@.len() && self.d@ == self.s@.skip(self.s@.len() - self.d@.len()) }
    pub closed spec fn rest(&self) -> Seq<char> { self.d@ }
    pub fn new(s: &'a str) -> (r: CharsIt<'a>)
        ensures r.rest() == s@, blen(s@) <= usize::MAX,
    { let _n = str_len(s); let d = chars_of(s); assert(s@.skip(0) =~= s@); CharsIt { s, d } }
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        },
    {
        proof { use_type_invariant(&*self); }
        let s = self.s;
        let mut d = VecDeque::new();
        proof { assert(s@.skip(s@.len() as int) =~= Seq::<char>::empty()); }
        core::mem::swap(&mut d, &mut self.d);
        let ghost d0 = d@;
        let r = d.pop_front();
        proof { if r is Some { assert(d@ =~= d0.skip(1)); assert(d@ =~= s@.skip(s@.len() - d@.len())); } }
        *self = CharsIt { s, d };
        r
    }
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures final(self).rest() == old(self).rest(), match r { Some(c) => old(self).rest().len() > 0 && *c == old(self).rest()[0], None => old(self).rest().len() == 0 },
    { self.d.front() }
    pub fn count(self) -> (r: usize)
        ensures r == self.rest().len(),
    { self.d.len() }
    pub fn as_str(&self) -> (r: &'a str)
        ensures r@ == self.rest(),
    {
        proof { use_type_invariant(&*self); }
        let n = self.s.unicode_len();
        let r = self.s.substring_char(n - self.d.len(), n);
        assert(r@ =~= self.d@);
        r
    }
}
/// the characters of pairs of offset and character
spec fn snds(d: Seq<(usize, char)>) -> Seq<char> { d.map_values(|x: (usize, char)| x.1) }
pub struct CharIndicesIt<'a> { s: &'a str, d: VecDeque<(usize, char)>, off: usize }
impl<'a> CharIndicesIt<'a> {
    #[verifier::type_invariant]
    closed spec fn inv(self) -> bool {
        self.off + blen(snds(self.d@)) <= usize::MAX
        && forall|k: int| 0 <= k < self.d@.len() ==> (#[trigger] self.d@[k]).0 == self.off + blen(snds(self.d@).take(k))
    }
    pub closed spec fn rest(&self) -> Seq<char> { snds(self.d@) }
    pub closed spec fn off(&self) -> int { self.off as int }
    pub fn new(s: &'a str) -> (r: CharIndicesIt<'a>)
        ensures r.rest() == s@, r.off() == 0, blen(s@) <= usize::MAX,
    {
        let n = s.unicode_len();
        let total = str_len(s);
        let mut d: VecDeque<(usize, char)> = VecDeque::new();
        let mut i: usize = 0;
        let mut at: usize = 0;
        proof { assert(s@.take(0) =~= Seq::<char>::empty()); }
        while i < n
            invariant i <= n, n == s@.len(), total == blen(s@), at == blen(s@.take(i as int)), d@.len() == i, snds(d@) =~= s@.take(i as int),
                forall|k: int| 0 <= k < i ==> (#[trigger] d@[k]).0 == blen(s@.take(k)),
            decreases n - i,
        {
            let c = s.get_char(i);
            d.push_back((at, c));
            proof {
                lemma_blen_split(s@, i + 1);
                lemma_blen_min(s@.skip(i + 1));
                assert(s@.take(i + 1).drop_last() =~= s@.take(i as int));
                assert(s@.take(i + 1).last() == c);
            }
            at = at + c.__len_utf8();
            i = i + 1;
        }
        proof {
            assert(s@.take(n as int) =~= s@);
            assert forall|k: int| 0 <= k < d@.len() implies (#[trigger] d@[k]).0 == 0 + blen(snds(d@).take(k)) by { assert(snds(d@).take(k) =~= s@.take(k)); }
        }
        CharIndicesIt { s, d, off: 0 }
    }
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x.1 == old(self).rest()[0] && x.0 == old(self).off() && final(self).rest() == old(self).rest().skip(1) && final(self).off() == old(self).off() + clen(x.1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() && final(self).off() == old(self).off(),
        },
    {
        proof { use_type_invariant(&*self); }
        let s = self.s;
        let mut d = VecDeque::new();
        core::mem::swap(&mut d, &mut self.d);
        let ghost d0 = d@;
        let r = d.pop_front();
        match r {
            Some(x) => {
                proof {
                    assert(d0[0] == x);
                    assert(snds(d0).take(0) =~= Seq::<char>::empty());
                    assert(snds(d@) =~= snds(d0).skip(1));
                    assert(snds(d0) =~= seq![x.1] + snds(d@));
                    lemma_blen_add(seq![x.1], snds(d@));
                    lemma_blen_one(x.1);
                    lemma_blen_min(snds(d@));
                }
                let off = x.0 + x.1.__len_utf8();
                proof {
                    assert forall|k: int| 0 <= k < d@.len() implies (#[trigger] d@[k]).0 == off + blen(snds(d@).take(k)) by {
                        assert(d@[k] == d0[k + 1]);
                        assert(snds(d0).take(k + 1) =~= seq![x.1] + snds(d@).take(k));
                        lemma_blen_add(seq![x.1], snds(d@).take(k));
                        lemma_blen_one(x.1);
                    }
                }
                *self = CharIndicesIt { s, d, off };
            }
            None => { *self = CharIndicesIt { s, d, off: self.off }; }
        }
        r
    }
    pub fn peek(&mut self) -> (r: Option<&(usize, char)>)
        ensures final(self).rest() == old(self).rest(), final(self).off() == old(self).off(),
            match r { Some(x) => old(self).rest().len() > 0 && x.1 == old(self).rest()[0] && x.0 == old(self).off(), None => old(self).rest().len() == 0 },
    { proof { use_type_invariant(&*self); assert(snds(self.d@).take(0) =~= Seq::<char>::empty()); } self.d.front() }
}
pub struct BytesIt<'a> { s: &'a str }
impl<'a> BytesIt<'a> {
    pub closed spec fn text(&self) -> Seq<char> { self.s@ }
    pub fn new(s: &'a str) -> (r: BytesIt<'a>)
        ensures r.text() == s@,
    { BytesIt { s } }
    pub fn len(&self) -> (r: usize)
        ensures r == blen(self.text()),
    { str_len(self.s) }
    pub fn count(self) -> (r: usize)
        ensures r == blen(self.text()),
    { str_len(self.s) }
}
} // verus!
