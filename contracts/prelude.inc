// ---- contracts assumed for library functions (see DESIGN.md, "Trusted base") ----
pub type Txt = Seq<char>;

/// the UTF-8 bytes of a text (vstd's definition)
#[verifier::opaque]
pub open spec fn utf8(s: Txt) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn byte_len(s: Txt) -> nat { utf8(s).len() }
pub assume_specification [String::len](s: &String) -> (r: usize) ensures r == byte_len(s@);
/// a text fits in memory (`str::len` is what vstd says it is)
pub broadcast axiom fn text_fits(s: &str) ensures #[trigger] vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s).len() <= isize::MAX;
pub broadcast proof fn text_bytes(s: &str) ensures #[trigger] vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s) == utf8(s@), vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s).len() == byte_len(s@) { reveal(utf8); }

/// two strings with the same characters are the same value
pub broadcast axiom fn string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

// ---- concatenation; its normal form is left-nested, one `ch` per literal character ----
#[verifier::opaque]
pub open spec fn cat(a: Txt, b: Txt) -> Txt { a + b }
#[verifier::opaque]
pub open spec fn ch(c: char) -> Txt { seq![c] }
#[verifier::opaque]
pub open spec fn nil() -> Txt { seq![] }
pub broadcast proof fn cat_assoc(a: Txt, b: Txt, c: Txt) ensures #[trigger] cat(a, cat(b, c)) == cat(cat(a, b), c) { reveal(cat); assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn cat_nil(a: Txt) ensures #[trigger] cat(a, nil()) == a { reveal(cat); reveal(nil); assert(a + Seq::<char>::empty() =~= a); }
pub broadcast proof fn nil_cat(a: Txt) ensures #[trigger] cat(nil(), a) == a { reveal(cat); reveal(nil); assert(Seq::<char>::empty() + a =~= a); }
pub broadcast group txt_norm { cat_assoc, cat_nil, nil_cat }

pub trait VStr { spec fn sv(&self) -> Txt; fn v_as(&self) -> (r: &str) ensures r@ == self.sv(); }
impl VStr for str { open spec fn sv(&self) -> Txt { self@ } fn v_as(&self) -> (r: &str) { self } }
impl VStr for String { open spec fn sv(&self) -> Txt { self@ } fn v_as(&self) -> (r: &str) { self.as_str() } }
impl<'a, T: VStr + ?Sized> VStr for &'a T { open spec fn sv(&self) -> Txt { (**self).sv() } fn v_as(&self) -> (r: &str) { (**self).v_as() } }

/// what `Display` writes for a value
pub trait VDisp { spec fn disp(&self) -> Txt; }
impl VDisp for str { open spec fn disp(&self) -> Txt { self@ } }
impl VDisp for String { open spec fn disp(&self) -> Txt { self@ } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn disp(&self) -> Txt { (**self).disp() } }
pub uninterp spec fn disp_u64(x: u64) -> Txt;
impl VDisp for u64 { open spec fn disp(&self) -> Txt { disp_u64(*self) } }
pub uninterp spec fn disp_i32(x: i32) -> Txt;
impl VDisp for i32 { open spec fn disp(&self) -> Txt { disp_i32(*self) } }
pub uninterp spec fn disp_u8(x: u8) -> Txt;
impl VDisp for u8 { open spec fn disp(&self) -> Txt { disp_u8(*self) } }
pub uninterp spec fn disp_u16(x: u16) -> Txt;
impl VDisp for u16 { open spec fn disp(&self) -> Txt { disp_u16(*self) } }
pub uninterp spec fn disp_u32(x: u32) -> Txt;
impl VDisp for u32 { open spec fn disp(&self) -> Txt { disp_u32(*self) } }
pub uninterp spec fn disp_u128(x: u128) -> Txt;
impl VDisp for u128 { open spec fn disp(&self) -> Txt { disp_u128(*self) } }
pub uninterp spec fn disp_i8(x: i8) -> Txt;
impl VDisp for i8 { open spec fn disp(&self) -> Txt { disp_i8(*self) } }
pub uninterp spec fn disp_i16(x: i16) -> Txt;
impl VDisp for i16 { open spec fn disp(&self) -> Txt { disp_i16(*self) } }
pub uninterp spec fn disp_i64(x: i64) -> Txt;
impl VDisp for i64 { open spec fn disp(&self) -> Txt { disp_i64(*self) } }
pub uninterp spec fn disp_i128(x: i128) -> Txt;
impl VDisp for i128 { open spec fn disp(&self) -> Txt { disp_i128(*self) } }
pub uninterp spec fn disp_isize(x: isize) -> Txt;
impl VDisp for isize { open spec fn disp(&self) -> Txt { disp_isize(*self) } }
pub uninterp spec fn disp_f32(x: f32) -> Txt;
impl VDisp for f32 { open spec fn disp(&self) -> Txt { disp_f32(*self) } }
pub open spec fn disp_bool(x: bool) -> Txt { if x { "true"@ } else { "false"@ } }
impl VDisp for bool { open spec fn disp(&self) -> Txt { disp_bool(*self) } }
impl VDisp for char { open spec fn disp(&self) -> Txt { seq![*self] } }

#[verifier::external_body]
pub fn v_disp<T: VDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
pub fn v_str<S: VStr + ?Sized>(x: &S) -> (r: String) ensures r@ == x.sv() { x.v_as().to_string() }
pub fn v_dup(x: &String) -> (r: String) ensures r@ == x@ { x.clone() }
pub fn v_cat<S: VStr + ?Sized>(a: String, b: &S) -> (r: String) ensures r@ == cat(a@, b.sv()) { let mut a = a; proof { reveal(cat); } a.push_str(b.v_as()); a }
pub fn v_push<S: VStr + ?Sized>(a: &mut String, b: &S) ensures final(a)@ == cat(old(a)@, b.sv()) { proof { reveal(cat); } a.push_str(b.v_as()); }
pub fn v_push_char(a: &mut String, b: char) ensures final(a)@ == cat(old(a)@, ch(b)) { proof { reveal(cat); reveal(ch); assert(a@.push(b) =~= a@ + seq![b]); } a.push(b); }
pub fn v_last<S: VStr + ?Sized>(a: &S) -> (r: Option<char>)
    ensures r == (if a.sv().len() == 0 { None } else { Some(a.sv().last()) }) { let t = a.v_as(); let mut i = t.chars(); i.next_back() }
pub fn v_first<S: VStr + ?Sized>(a: &S) -> (r: Option<char>)
    ensures r == (if a.sv().len() == 0 { None } else { Some(a.sv()[0]) }) { let t = a.v_as(); let mut i = t.chars(); i.next() }
pub open spec fn txt_ends(x: Txt, y: Txt) -> bool { y.len() <= x.len() && x.skip(x.len() - y.len()) == y }
pub open spec fn txt_starts(x: Txt, y: Txt) -> bool { y.len() <= x.len() && x.take(y.len() as int) == y }
#[verifier::external_body]
pub fn v_ends<S: VStr + ?Sized>(x: &S, y: &str) -> (r: bool) ensures r == txt_ends(x.sv(), y@) { unimplemented!() }
#[verifier::external_body]
pub fn v_starts<S: VStr + ?Sized>(x: &S, y: &str) -> (r: bool) ensures r == txt_starts(x.sv(), y@) { unimplemented!() }
pub open spec fn txt_within(x: Txt, y: Txt) -> bool { exists|i: int| 0 <= i <= x.len() - y.len() && #[trigger] x.skip(i).take(y.len() as int) == y }
#[verifier::external_body]
pub fn v_has<S: VStr + ?Sized>(x: &S, y: &str) -> (r: bool) ensures r == txt_within(x.sv(), y@) { unimplemented!() }
#[verifier::external_body]
pub fn v_has_char<S: VStr + ?Sized>(x: &S, y: char) -> (r: bool) ensures r == x.sv().contains(y) { unimplemented!() }
/// any value: nothing is known of it
#[verifier::external_body]
pub fn v_arb<T>() -> (r: T) { unimplemented!() }
pub fn v_mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
pub fn v_mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { let mut b = b; core::mem::swap(a, &mut b); b }
pub trait VTake: Sized { spec fn v_emptied(&self) -> bool; fn v_empty() -> (r: Self) ensures r.v_emptied(); }
impl VTake for String { open spec fn v_emptied(&self) -> bool { self@.len() == 0 } fn v_empty() -> (r: String) { String::new() } }
impl<T> VTake for Vec<T> { open spec fn v_emptied(&self) -> bool { self@.len() == 0 } fn v_empty() -> (r: Vec<T>) { Vec::new() } }
pub fn v_mem_take<T: VTake>(a: &mut T) -> (r: T) ensures r == *old(a), final(a).v_emptied() { v_mem_replace(a, T::v_empty()) }
pub trait VPop: Sized { type E; spec fn popped(self, n: Self, r: Option<Self::E>) -> bool; fn v_pop(&mut self) -> (r: Option<Self::E>) ensures old(self).popped(*final(self), r); }
impl VPop for String { type E = char;
    open spec fn popped(self, n: String, r: Option<char>) -> bool { if self@.len() == 0 { r is None && n@ == self@ } else { r == Some(self@.last()) && n@ == self@.drop_last() } }
    #[verifier::external_body]
    fn v_pop(&mut self) -> (r: Option<char>) { unimplemented!() }
}
impl<T> VPop for Vec<T> { type E = T;
    open spec fn popped(self, n: Vec<T>, r: Option<T>) -> bool { if self@.len() == 0 { r is None && n@ == self@ } else { r == Some(self@.last()) && n@ == self@.drop_last() } }
    fn v_pop(&mut self) -> (r: Option<T>) { self.pop() }
}
/// `a += b` on text or on a number
pub trait VAdd<R>: Sized { spec fn can_add(self, r: R) -> bool; spec fn added(self, r: R, n: Self) -> bool;
    fn v_add_assign_(&mut self, r: R) requires old(self).can_add(r) ensures old(self).added(r, *final(self)); }
impl<'a, S: VStr + ?Sized> VAdd<&'a S> for String {
    open spec fn can_add(self, r: &'a S) -> bool { true }
    open spec fn added(self, r: &'a S, n: String) -> bool { n@ == cat(self@, r.sv()) }
    fn v_add_assign_(&mut self, r: &'a S) { v_push(self, r); }
}
impl VAdd<usize> for usize {
    open spec fn can_add(self, r: usize) -> bool { self + r <= usize::MAX }
    open spec fn added(self, r: usize, n: usize) -> bool { n == self + r }
    fn v_add_assign_(&mut self, r: usize) { *self = *self + r; }
}
pub fn v_add_assign<R, T: VAdd<R>>(a: &mut T, r: R) requires old(a).can_add(r) ensures old(a).added(r, *final(a)) { a.v_add_assign_(r) }
#[verifier::opaque]
pub open spec fn rep_txt(s: Txt, n: nat) -> Txt decreases n { if n == 0 { seq![] } else { rep_txt(s, (n - 1) as nat) + s } }
pub proof fn rep_none(s: Txt) ensures rep_txt(s, 0) == nil() { reveal(nil); reveal_with_fuel(rep_txt, 1); }
#[verifier::external_body]
pub fn v_repeat<S: VStr + ?Sized>(s: &S, n: usize) -> (r: String) ensures r@ == rep_txt(s.sv(), n as nat) { unimplemented!() }
#[verifier::opaque]
pub open spec fn join_txt(v: Seq<Txt>, sep: Txt) -> Txt decreases v.len() {
    if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { join_txt(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn views(v: Seq<String>) -> Seq<Txt> { v.map_values(|s: String| s@) }
pub broadcast proof fn views_push(v: Seq<String>, s: String) ensures #[trigger] views(v.push(s)) == views(v).push(s@) { assert(views(v.push(s)) =~= views(v).push(s@)); }
#[verifier::external_body]
pub fn v_join<S: VStr + ?Sized>(v: &Vec<String>, sep: &S) -> (r: String) ensures r@ == join_txt(views(v@), sep.sv()) { unimplemented!() }
pub fn v_sref<S: VStr + ?Sized>(x: &S) -> (r: &str) ensures r@ == x.sv() { x.v_as() }
pub fn v_eq<S: VStr + ?Sized>(x: &S, y: &str) -> (r: bool) ensures r == (x.sv() == y@) { broadcast use vstd::string::group_string_axioms; x.v_as() == y }
pub open spec fn opt_sv<S: VStr>(x: Option<S>) -> Option<Txt> { match x { Some(s) => Some(s.sv()), None => None } }
pub fn v_opt_eq<S: VStr>(x: &Option<S>, y: &str) -> (r: bool) ensures r == (opt_sv(*x) == Some(y@)) { match x { Some(s) => v_eq(s, y), None => false } }
#[verifier::external_body]
pub fn v_panic() -> ! requires false { panic!() }
pub fn v_ref<T: ?Sized>(x: &T) -> (r: &T) ensures r == x { x }

// slice iterators: the view is what is still to come
#[verifier::reject_recursive_types(T)]
pub struct VIter<'a, T> { s: &'a [T], i: usize }
impl<'a, T> View for VIter<'a, T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { if self.i <= self.s@.len() { self.s@.skip(self.i as int) } else { seq![] } } }
impl<'a, T> VIter<'a, T> {
    fn v_new(s: &'a [T]) -> (r: VIter<'a, T>) ensures r@ == s@ { proof { assert(s@.skip(0) =~= s@); } VIter { s, i: 0 } }
    pub fn v_more(&self) -> (r: bool) ensures r == (self@.len() > 0) { self.i < self.s.len() }
    pub fn v_next(&mut self) -> (r: &'a T) requires old(self)@.len() > 0
        ensures *r == old(self)@[0], final(self)@ == old(self)@.skip(1)
    { let r = &self.s[self.i]; self.i = self.i + 1; proof { assert(self@ =~= old(self)@.skip(1)); } r }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1)
    { if self.v_more() { Some(self.v_next()) } else { None } }
    pub fn v_skip(self, n: usize) -> (r: VIter<'a, T>) ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int })
    {
        let l = self.s.len();
        let i = if self.i > l || n > l - self.i { l } else { self.i + n };
        let r = VIter { s: self.s, i };
        proof { assert(r@ =~= self@.skip(if n <= self@.len() { n as int } else { self@.len() as int })); }
        r
    }
    pub fn v_enumerate(self) -> (r: VEnum<'a, T>) ensures r@ == self@, r.all() == self@
    { let l = self.s.len(); let i = if self.i < l { self.i } else { l }; let r = VEnum { s: self.s, base: i, i }; proof { assert(r@ =~= self@); } r }
}
/// with the position: the view is still what is to come, `all` what there was at the start
#[verifier::reject_recursive_types(T)]
pub struct VEnum<'a, T> { s: &'a [T], base: usize, i: usize }
impl<'a, T> View for VEnum<'a, T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { if self.base <= self.i <= self.s@.len() { self.s@.skip(self.i as int) } else { seq![] } } }
impl<'a, T> VEnum<'a, T> {
    pub closed spec fn all(&self) -> Seq<T> { self.s@.skip(self.base as int) }
    pub fn v_more(&self) -> (r: bool) ensures r == (self@.len() > 0) { self.base <= self.i && self.i < self.s.len() }
    pub fn v_next(&mut self) -> (r: (usize, &'a T)) requires old(self)@.len() > 0
        ensures r.0 == old(self).all().len() - old(self)@.len(), *r.1 == old(self)@[0], final(self)@ == old(self)@.skip(1), final(self).all() == old(self).all()
    { let n = self.i - self.base; let x = &self.s[self.i]; self.i = self.i + 1; proof { assert(self@ =~= old(self)@.skip(1)); } (n, x) }
}
/// the numbers from `a` to before `b`
pub struct VRange { pub a: usize, pub b: usize, pub start: Ghost<int> }
impl View for VRange { type V = Seq<int>; closed spec fn view(&self) -> Seq<int> { Seq::new(if self.a < self.b { (self.b - self.a) as nat } else { 0 }, |i: int| self.a + i) } }
impl VRange {
    pub closed spec fn all(&self) -> Seq<int> { Seq::new(if self.start@ < self.b { (self.b - self.start@) as nat } else { 0 }, |i: int| self.start@ + i) }
    pub fn v_more(&self) -> (r: bool) ensures r == (self@.len() > 0) { self.a < self.b }
    pub fn v_next(&mut self) -> (r: usize) requires old(self)@.len() > 0
        ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1), final(self).all() == old(self).all()
    { let r = self.a; self.a = r + 1; proof { assert(self@ =~= old(self)@.skip(1)); } r }
}
pub fn v_range(a: usize, b: usize) -> (r: VRange)
    ensures r@ == r.all(), r@.len() == (if a < b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i
{ VRange { a, b, start: Ghost(a as int) } }
#[verifier::reject_recursive_types(T)]
pub struct VOwned<T> { v: Vec<T> }
impl<T> View for VOwned<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> VOwned<T> {
    pub fn v_more(&self) -> (r: bool) ensures r == (self@.len() > 0) { self.v.len() > 0 }
    pub fn v_next(&mut self) -> (r: T) requires old(self)@.len() > 0
        ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1)
    { let r = self.v.remove(0); proof { assert(self@ =~= old(self)@.skip(1)); } r }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1)
    { if self.v_more() { Some(self.v_next()) } else { None } }
}
pub trait VIterable<T> {
    fn v_iter<'a>(&'a self) -> VIter<'a, T>;
    fn v_into_iter(self) -> VOwned<T>;
}
impl<T> VIterable<T> for Vec<T> {
    fn v_iter<'a>(&'a self) -> (r: VIter<'a, T>) ensures r@ == self@ { VIter::v_new(self.as_slice()) }
    fn v_into_iter(self) -> (r: VOwned<T>) ensures r@ == self@ { VOwned { v: self } }
}
pub trait VIterSlice<T> { fn v_iter<'a>(&'a self) -> VIter<'a, T>; }
impl<T> VIterSlice<T> for [T] {
    fn v_iter<'a>(&'a self) -> (r: VIter<'a, T>) ensures r@ == self@ { VIter::v_new(self) }
}
pub fn v_once<T>(x: T) -> (r: VOwned<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } VOwned { v } }
/// `v.extend(x)`
pub trait VExtend<X>: Sized { spec fn extended(self, x: X, n: Self) -> bool; fn v_extend(&mut self, x: X) ensures old(self).extended(x, *final(self)); }
impl<T> VExtend<Vec<T>> for Vec<T> {
    open spec fn extended(self, x: Vec<T>, n: Vec<T>) -> bool { n@ == self@ + x@ && (self@.len() == 0 ==> n@ == x@) }
    fn v_extend(&mut self, x: Vec<T>) { let ghost y = x@; let mut x = x; self.append(&mut x); proof { assert(old(self)@.len() == 0 ==> self@ =~= y); } }
}
impl<T> VExtend<VOwned<T>> for Vec<T> {
    open spec fn extended(self, x: VOwned<T>, n: Vec<T>) -> bool { n@ == self@ + x@ && (self@.len() == 0 ==> n@ == x@) }
    fn v_extend(&mut self, x: VOwned<T>) { let ghost y = x@; let mut x = x; self.append(&mut x.v); proof { assert(old(self)@.len() == 0 ==> self@ =~= y); } }
}
/// `x[..]`
pub trait VAll { type O: ?Sized; spec fn is_all(&self, o: &Self::O) -> bool; fn v_all(&self) -> (r: &Self::O) ensures self.is_all(r); }
impl VAll for str { type O = str; open spec fn is_all(&self, o: &str) -> bool { o@ == self@ } fn v_all(&self) -> &str { self } }
impl VAll for String { type O = str; open spec fn is_all(&self, o: &str) -> bool { o@ == self@ } fn v_all(&self) -> &str { self.as_str() } }
impl<T> VAll for Vec<T> { type O = [T]; open spec fn is_all(&self, o: &[T]) -> bool { o@ == self@ } fn v_all(&self) -> &[T] { self.as_slice() } }
impl<T> VAll for [T] { type O = [T]; open spec fn is_all(&self, o: &[T]) -> bool { o@ == self@ } fn v_all(&self) -> &[T] { self } }
/// how many characters the first n bytes of a text are; None if n is not between two of them
pub open spec fn cut_at(x: Txt, n: int, k: nat) -> bool { k <= x.len() && byte_len(x.take(k as int)) == n }
#[verifier::opaque]
pub open spec fn cut(x: Txt, n: int) -> Option<nat> { if exists|k: nat| cut_at(x, n, k) { Some(choose|k: nat| cut_at(x, n, k)) } else { None } }
proof fn utf8_one(c: char) ensures 1 <= byte_len(seq![c]) <= 4, (c as u32) < 128 ==> byte_len(seq![c]) == 1 { reveal(utf8); reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
proof fn utf8_none() ensures byte_len(seq![]) == 0 { reveal(utf8); }
proof fn utf8_cat(a: Txt, b: Txt) ensures utf8(a + b) == utf8(a) + utf8(b) { reveal(utf8); vstd::utf8::encode_utf8_concat(a, b); }
proof fn byte_bounds(x: Txt) ensures x.len() <= byte_len(x) <= 4 * x.len() decreases x.len() {
    if x.len() > 0 { utf8_one(x.last()); byte_bounds(x.drop_last()); assert(x =~= x.drop_last() + seq![x.last()]); utf8_cat(x.drop_last(), seq![x.last()]); }
    else { assert(x =~= seq![]); utf8_none(); }
}
proof fn bytes_grow(x: Txt, i: int, j: int) requires 0 <= i < j <= x.len() ensures byte_len(x.take(i)) < byte_len(x.take(j)) {
    let b = x.subrange(i, j); assert(x.take(j) =~= x.take(i) + b); utf8_cat(x.take(i), b); byte_bounds(b);
}
/// the characters before a byte position are unique
proof fn cut_is(x: Txt, k: nat) requires k <= x.len() ensures cut(x, byte_len(x.take(k as int)) as int) == Some(k) {
    reveal(cut);
    let n = byte_len(x.take(k as int)) as int;
    assert(cut_at(x, n, k));
    let j = choose|j: nat| cut_at(x, n, j);
    if j < k { bytes_grow(x, j as int, k as int); } else if k < j { bytes_grow(x, k as int, j as int); }
}
pub broadcast proof fn cut_ends(x: Txt) ensures #![trigger byte_len(x)] cut(x, 0) == Some(0nat), cut(x, byte_len(x) as int) == Some(x.len()), (x.len() == 0) == (byte_len(x) == 0), x.len() <= byte_len(x) <= 4 * x.len() {
    byte_bounds(x); cut_is(x, 0); cut_is(x, x.len()); assert(x.take(x.len() as int) =~= x); assert(x.take(0) =~= seq![]); utf8_none();
}
pub broadcast proof fn cut_last(x: Txt) ensures #![trigger byte_len(x)] x.len() > 0 && (x.last() as u32) < 128 ==> cut(x, byte_len(x) - 1) == Some((x.len() - 1) as nat) {
    if x.len() > 0 && (x.last() as u32) < 128 {
        let k = (x.len() - 1) as nat; cut_is(x, k); utf8_one(x.last()); assert(x =~= x.take(k as int) + seq![x.last()]); utf8_cat(x.take(k as int), seq![x.last()]);
    }
}
pub broadcast proof fn cut_first(x: Txt) ensures #![trigger cut(x, 1)] x.len() > 0 && (x[0] as u32) < 128 ==> cut(x, 1) == Some(1nat) {
    if x.len() > 0 && (x[0] as u32) < 128 { cut_is(x, 1); utf8_one(x[0]); assert(x.take(1) =~= seq![x[0]]); }
}
pub broadcast group txt_bytes { cut_ends, cut_last, cut_first, text_fits, text_bytes }
/// `x[a..b]`, `x[a..]`
pub trait VSlice { type O: ?Sized;
    spec fn has(&self, a: int, b: int) -> bool; spec fn part(&self, a: int, b: int, o: &Self::O) -> bool; spec fn size(&self) -> int;
    fn v_slice(&self, a: usize, b: usize) -> (r: &Self::O) requires self.has(a as int, b as int) ensures self.part(a as int, b as int, r);
    fn v_from(&self, a: usize) -> (r: &Self::O) requires self.has(a as int, self.size()) ensures self.part(a as int, self.size(), r);
}
pub open spec fn txt_has(x: Txt, a: int, b: int) -> bool { cut(x, a) is Some && cut(x, b) is Some && a <= b }
pub open spec fn txt_part(x: Txt, a: int, b: int) -> Txt { x.subrange(cut(x, a)->0 as int, cut(x, b)->0 as int) }
pub broadcast proof fn part_front(x: Txt) requires x.len() > 0 ensures #[trigger] x.subrange(0, x.len() - 1) == x.drop_last() {}
pub broadcast proof fn part_whole(x: Txt) ensures #[trigger] x.subrange(0, x.len() as int) == x { assert(x.subrange(0, x.len() as int) =~= x); }
impl VSlice for str { type O = str;
    open spec fn has(&self, a: int, b: int) -> bool { txt_has(self@, a, b) }
    open spec fn part(&self, a: int, b: int, o: &str) -> bool { o@ == txt_part(self@, a, b) }
    open spec fn size(&self) -> int { byte_len(self@) as int }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_from(&self, a: usize) -> (r: &str) { unimplemented!() }
}
impl VSlice for String { type O = str;
    open spec fn has(&self, a: int, b: int) -> bool { txt_has(self@, a, b) }
    open spec fn part(&self, a: int, b: int, o: &str) -> bool { o@ == txt_part(self@, a, b) }
    open spec fn size(&self) -> int { byte_len(self@) as int }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_from(&self, a: usize) -> (r: &str) { unimplemented!() }
}
impl<T> VSlice for [T] { type O = [T];
    open spec fn has(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn part(&self, a: int, b: int, o: &[T]) -> bool { o@ == self@.subrange(a, b) }
    open spec fn size(&self) -> int { self@.len() as int }
    fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, b) }
    fn v_from(&self, a: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, self.len()) }
}
impl<T> VSlice for Vec<T> { type O = [T];
    open spec fn has(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn part(&self, a: int, b: int, o: &[T]) -> bool { o@ == self@.subrange(a, b) }
    open spec fn size(&self) -> int { self@.len() as int }
    fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self.as_slice(), a, b) }
    fn v_from(&self, a: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self.as_slice(), a, self.len()) }
}
/// `x.truncate(n)`
pub trait VTrunc { spec fn can_cut(&self, n: int) -> bool; spec fn cut_to(&self, n: int, r: &Self) -> bool;
    fn v_truncate(&mut self, n: usize) requires old(self).can_cut(n as int) ensures old(self).cut_to(n as int, final(self)); }
impl VTrunc for String {
    open spec fn can_cut(&self, n: int) -> bool { n >= byte_len(self@) || cut(self@, n) is Some }
    open spec fn cut_to(&self, n: int, r: &String) -> bool { r@ == if n >= byte_len(self@) { self@ } else { txt_part(self@, 0, n) } }
    #[verifier::external_body] fn v_truncate(&mut self, n: usize) { unimplemented!() }
}
impl<T> VTrunc for Vec<T> {
    open spec fn can_cut(&self, n: int) -> bool { true }
    open spec fn cut_to(&self, n: int, r: &Vec<T>) -> bool { r@ == if n >= self@.len() { self@ } else { self@.subrange(0, n) } }
    fn v_truncate(&mut self, n: usize) { self.truncate(n); proof { assert(old(self)@.subrange(0, old(self)@.len() as int) =~= old(self)@); } }
}
/// `for x in e` where `e` is a borrowed collection, an owned one or an iterator
pub trait VIterOf: Sized { type It; spec fn yields(self, r: Self::It) -> bool; fn v_its(self) -> (r: Self::It) ensures self.yields(r); }
impl<'a, T> VIterOf for &'a [T] { type It = VIter<'a, T>; open spec fn yields(self, r: VIter<'a, T>) -> bool { r@ == self@ } fn v_its(self) -> VIter<'a, T> { VIter::v_new(self) } }
impl<'a, T> VIterOf for &'a Vec<T> { type It = VIter<'a, T>; open spec fn yields(self, r: VIter<'a, T>) -> bool { r@ == self@ } fn v_its(self) -> VIter<'a, T> { VIter::v_new(self.as_slice()) } }
impl<'a, T> VIterOf for VIter<'a, T> { type It = VIter<'a, T>; open spec fn yields(self, r: VIter<'a, T>) -> bool { r == self } fn v_its(self) -> VIter<'a, T> { self } }
impl<T> VIterOf for Vec<T> { type It = VOwned<T>; open spec fn yields(self, r: VOwned<T>) -> bool { r@ == self@ } fn v_its(self) -> VOwned<T> { VOwned { v: self } } }
impl<T> VIterOf for VOwned<T> { type It = VOwned<T>; open spec fn yields(self, r: VOwned<T>) -> bool { r == self } fn v_its(self) -> VOwned<T> { self } }
pub fn v_iter_of<X: VIterOf>(x: X) -> (r: X::It) ensures x.yields(r) { x.v_its() }

// ---- more of String ----
pub trait VDebug { spec fn dbg(&self) -> Txt; }
impl<'a, T: VDebug + ?Sized> VDebug for &'a T { open spec fn dbg(&self) -> Txt { (**self).dbg() } }
#[verifier::external_body]
pub fn v_debug<T: VDebug + ?Sized>(x: &T) -> (r: String) ensures r@ == x.dbg() { unimplemented!() }
pub open spec fn ascii(s: Txt) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub open spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
#[verifier::opaque]
pub open spec fn lower(s: Txt) -> Txt { s.map_values(|c: char| low(c)) }
pub broadcast proof fn lower_cat(a: Txt, b: Txt) ensures #[trigger] lower(cat(a, b)) == cat(lower(a), lower(b)) { reveal(lower); reveal(cat); assert(lower(a + b) =~= lower(a) + lower(b)); }
pub broadcast proof fn lower_ch(c: char) ensures #[trigger] lower(ch(c)) == ch(low(c)) { reveal(lower); reveal(ch); assert(lower(ch(c)) =~= ch(low(c))); }
#[verifier::opaque]
pub open spec fn all_ascii(s: Txt) -> bool { ascii(s) }
pub broadcast proof fn ascii_cat(a: Txt, b: Txt) ensures #[trigger] all_ascii(cat(a, b)) == (all_ascii(a) && all_ascii(b)) {
    reveal(all_ascii); reveal(cat);
    let s = a + b;
    if ascii(a) && ascii(b) { assert(ascii(s)); }
    if ascii(s) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i] as u32) < 128 by { assert(s[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i] as u32) < 128 by { assert(s[i + a.len()] == b[i]); } }
}
pub broadcast proof fn ascii_ch(c: char) ensures #[trigger] all_ascii(ch(c)) == ((c as u32) < 128) { reveal(all_ascii); reveal(ch); assert(ch(c)[0] == c); }
pub broadcast group txt_lower { lower_cat, lower_ch, ascii_cat, ascii_ch }
/// to_lowercase, to_ascii_lowercase: only known for ASCII text
#[verifier::external_body]
pub fn v_lower<S: VStr + ?Sized>(x: &S) -> (r: String) ensures all_ascii(x.sv()) ==> r@ == lower(x.sv()) { unimplemented!() }
#[verifier::external_body]
pub fn v_eq_nocase<S: VStr + ?Sized, T: VStr + ?Sized>(x: &S, y: &T) -> (r: bool) ensures r == (lower(x.sv()) == lower(y.sv())) { unimplemented!() }
pub fn v_bytes<S: VStr + ?Sized>(x: &S) -> (r: &[u8]) ensures r@ == utf8(x.sv()) { proof { reveal(utf8); } x.v_as().as_bytes() }
#[verifier::external_body]
pub fn v_into_bytes(x: String) -> (r: Vec<u8>) ensures r@ == utf8(x@) { unimplemented!() }
/// what from_utf8_lossy makes of bytes
pub uninterp spec fn lossy(b: Seq<u8>) -> Txt;
#[verifier::external_body]
pub fn v_lossy(x: &Vec<u8>) -> (r: String) ensures r@ == lossy(x@) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_suffix<'a, S: VStr + ?Sized>(x: &'a S, y: &str) -> (r: Option<&'a str>)
    ensures y@.len() <= x.sv().len() && x.sv().skip(x.sv().len() - y@.len()) == y@ ==> r is Some && x.sv() == cat(r->0@, y@),
        !(y@.len() <= x.sv().len() && x.sv().skip(x.sv().len() - y@.len()) == y@) ==> r is None { unimplemented!() }
