//@subst Formatter<'_> => Formatter
//@allpre broadcast use {string_ext, txt_norm, txt_bytes, part_front, part_whole}; proof { lemma_trim(); }
/// a formatter: its view is what has been written to it
#[verifier::external_body]
pub struct Formatter { f: u8 }
impl View for Formatter { type V = Txt; uninterp spec fn view(&self) -> Txt; }
#[verifier::external_body]
pub struct Error { e: u8 }
/// the underlying writer refused
pub uninterp spec fn refused(e: Error) -> bool;
impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self)@ == cat(old(self)@, s@), r is Err ==> refused(r->Err_0) { unimplemented!() }
}
pub open spec fn is_plain(i: Id, t: Txt) -> bool { i is Plain && i->Plain_0@ == t }
/// the name without the underscore that only keeps it from being a keyword
#[verifier::opaque]
pub open spec fn trim_(t: Txt) -> Txt { if t.len() > 0 && t.last() == '_' { t.drop_last() } else { t } }
pub proof fn lemma_trim()
    ensures
        "_"@.len() == 1,
        forall|u: Txt| trim_(#[trigger] cat(u, "_"@)) == u,
        forall|t: Txt| t.len() > 0 && t.last() == '_' ==> #[trigger] trim_(t) == t.drop_last(),
        forall|t: Txt| !(t.len() > 0 && t.last() == '_') ==> #[trigger] trim_(t) == t,
        forall|t: Txt| !(1 <= t.len() && t.skip(t.len() - 1) == "_"@) ==> #[trigger] trim_(t) == t,
{
    reveal_strlit("_"); reveal(cat); reveal(trim_);
    assert("_"@ =~= seq!['_']);
    assert forall|u: Txt| trim_(#[trigger] cat(u, "_"@)) == u by { let t = cat(u, "_"@); assert(t.drop_last() =~= u); assert(t.last() == '_'); }
    assert forall|t: Txt| !(1 <= t.len() && t.skip(t.len() - 1) == "_"@) implies #[trigger] trim_(t) == t by {
        if t.len() > 0 && t.last() == '_' { assert(t.skip(t.len() - 1) =~= "_"@); }
    }
}
