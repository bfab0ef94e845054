/// a formatter: its view is what has been written to it
#[verifier::external_body]
pub struct Formatter { f: u8 }
impl View for Formatter { type V = Txt; uninterp spec fn view(&self) -> Txt; }
#[verifier::external_body]
pub struct Error { e: u8 }
/// the underlying writer refused
pub uninterp spec fn refused(e: Error) -> bool;
impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self)@ == cat(old(self)@, s@), r is Err ==> refused(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self)@ == cat(old(self)@, ch(c)), r is Err ==> refused(r->Err_0) { unimplemented!() }
}
pub open spec fn id_disp(i: Id) -> Txt {
    match i {
        Id::Html(v) => cat("html "@, v@),
        Id::Escaped(v) => cat("esc "@, v@),
        Id::Plain(v) => v@,
        Id::Anonymous(v) => cat("anon "@, v@),
    }
}
