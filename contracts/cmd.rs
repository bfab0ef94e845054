#![allow(unused, non_camel_case_types, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
//@include prelude.inc
//@inline graphviz::cmd
//@inline graphviz
//@item graphviz::cmd::Layout
//@item graphviz::cmd::Format
//@item graphviz::cmd::CommandArg
//@debug graphviz::cmd::Layout
//@debug graphviz::cmd::Format
//@allpre broadcast use {string_ext, txt_norm, txt_lower, views_push, empty_add}; proof { reveal(nil); }

// ---- the names graphviz knows (https://graphviz.org/docs/layouts/, .../outputs/) ----
pub open spec fn gv_layout(l: Layout) -> Txt {
    match l {
        Layout::Dot => "dot"@, Layout::Neato => "neato"@, Layout::Twopi => "twopi"@, Layout::Circo => "circo"@, Layout::Fdp => "fdp"@,
        Layout::Asage => "osage"@, Layout::Patchwork => "patchwork"@, Layout::Sfdp => "sfdp"@,
    }
}
pub open spec fn gv_format(f: Format) -> Txt {
    match f {
        Format::Bmp => "bmp"@, Format::Cgimage => "cgimage"@, Format::Canon => "canon"@, Format::Dot => "dot"@, Format::Gv => "gv"@,
        Format::Xdot => "xdot"@, Format::Xdot12 => "xdot1.2"@, Format::Xdot14 => "xdot1.4"@, Format::Eps => "eps"@, Format::Exr => "exr"@,
        Format::Fig => "fig"@, Format::Gd => "gd"@, Format::Gd2 => "gd2"@, Format::Gif => "gif"@, Format::Gtk => "gtk"@, Format::Ico => "ico"@,
        Format::Cmap => "cmap"@, Format::Ismap => "ismap"@, Format::Imap => "imap"@, Format::Cmapx => "cmapx"@, Format::ImapNp => "imap_np"@,
        Format::CmapxNp => "cmapx_np"@, Format::Jpg => "jpg"@, Format::Jpeg => "jpeg"@, Format::Jpe => "jpe"@, Format::Jp2 => "jp2"@,
        Format::Json => "json"@, Format::Json0 => "json0"@, Format::DotJson => "dot_json"@, Format::XdotJson => "xdot_json"@, Format::Pdf => "pdf"@,
        Format::Pic => "pic"@, Format::Pct => "pct"@, Format::Pict => "pict"@, Format::Plain => "plain"@, Format::PlainExt => "plain-ext"@,
        Format::Png => "png"@, Format::Pov => "pov"@, Format::Ps => "ps"@, Format::Ps2 => "ps2"@, Format::Psd => "psd"@, Format::Sgi => "sgi"@,
        Format::Svg => "svg"@, Format::Svgz => "svgz"@, Format::Tga => "tga"@, Format::Tif => "tif"@, Format::Tiff => "tiff"@, Format::Tk => "tk"@,
        Format::Vml => "vml"@, Format::Vmlz => "vmlz"@, Format::Vrml => "vrml"@, Format::Vbmp => "wbmp"@, Format::Webp => "webp"@,
        Format::Xlib => "xlib"@, Format::X11 => "x11"@,
    }
}
pub open spec fn arg_txt(a: CommandArg) -> Txt {
    match a {
        CommandArg::Custom(s) => s@,
        CommandArg::Output(p) => cat("-o"@, p@),
        CommandArg::Layout(l) => cat("-K"@, gv_layout(l)),
        CommandArg::Format(f) => cat("-T"@, gv_format(f)),
    }
}
pub open spec fn arg_txts(v: Seq<CommandArg>) -> Seq<Txt> { v.map_values(|a: CommandArg| arg_txt(a)) }

// ---- processes and temporary files (assumed) ----
#[verifier::external_body]
pub struct Error { e: u8 }
pub enum ErrorKind { NotFound, Other, InvalidData, Interrupted, UnexpectedEof, BrokenPipe, PermissionDenied }
/// the error comes from the operating system: a file could not be written or removed, dot could not be started
pub uninterp spec fn os_error(e: Error) -> bool;
pub uninterp spec fn says(e: Error, m: Txt) -> bool;
impl Error {
    #[verifier::external_body]
    pub fn new(k: ErrorKind, m: String) -> (r: Error) ensures says(r, m@) { unimplemented!() }
    #[verifier::external_body]
    pub fn other(m: String) -> (r: Error) ensures says(r, m@) { unimplemented!() }
}
#[verifier::external_body]
pub struct ExitStatus { s: u8 }
/// the exit code; None when a signal ended the process
pub uninterp spec fn exit_code(s: ExitStatus) -> Option<i32>;
impl ExitStatus {
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<i32>) ensures r == exit_code(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn success(&self) -> (r: bool) ensures r == (exit_code(*self) == Some(0i32)) { unimplemented!() }
}
pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
pub ghost struct Cmd { pub program: Txt, pub args: Seq<Txt> }
#[verifier::external_body]
pub struct Command { c: u8 }
impl View for Command { type V = Cmd; uninterp spec fn view(&self) -> Cmd; }
/// what `Command::args` takes
pub trait VArgs { spec fn all_args(&self) -> Seq<String>; }
impl VArgs for Vec<String> { open spec fn all_args(&self) -> Seq<String> { self@ } }
impl VArgs for [String] { open spec fn all_args(&self) -> Seq<String> { self@ } }
impl<'a, A: VArgs + ?Sized> VArgs for &'a A { open spec fn all_args(&self) -> Seq<String> { (**self).all_args() } }
impl<'a> VArgs for VIter<'a, String> { open spec fn all_args(&self) -> Seq<String> { self@ } }
impl VArgs for VOwned<String> { open spec fn all_args(&self) -> Seq<String> { self@ } }
/// the process that produced this output was started with this command line, inheriting everything else
pub uninterp spec fn ran(o: Output, c: Cmd) -> bool;
impl Command {
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Command) ensures r@ == (Cmd { program: p@, args: seq![] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<S: VStr>(&mut self, a: S) -> (r: &mut Command)
        ensures r@ == (Cmd { args: old(self)@.args.push(a.sv()), ..old(self)@ }), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn args<A: VArgs>(&mut self, a: A) -> (r: &mut Command)
        ensures r@ == (Cmd { args: old(self)@.args + views(a.all_args()), ..old(self)@ }), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn output(&mut self) -> (r: Result<Output, Error>)
        ensures r is Ok ==> ran(r->Ok_0, old(self)@), r is Err ==> os_error(r->Err_0), final(self)@ == old(self)@ { unimplemented!() }
}
pub ghost struct File { pub path: Txt, pub content: Seq<u8> }
/// a temporary file: removed when this value is closed or dropped
#[verifier::external_body]
pub struct NamedTempFile { f: u8 }
impl View for NamedTempFile { type V = File; uninterp spec fn view(&self) -> File; }
#[verifier::external_body]
pub struct TempPath { f: u8 }
impl View for TempPath { type V = File; uninterp spec fn view(&self) -> File; }
pub broadcast proof fn empty_add(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }
impl NamedTempFile {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), Error>)
        ensures final(self)@.path == old(self)@.path, r is Ok ==> final(self)@.content == old(self)@.content + utf8(s@), r is Err ==> os_error(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Result<NamedTempFile, Error>) ensures r is Ok ==> r->Ok_0@.content == Seq::<u8>::empty(), r is Err ==> os_error(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>)
        ensures final(self)@.path == old(self)@.path, r is Ok ==> final(self)@.content == old(self)@.content + b@, r is Err ==> os_error(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), Error>) ensures final(self)@ == old(self)@, r is Err ==> os_error(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_temp_path(self) -> (r: TempPath) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathRef) ensures r.p@ == self@.path { unimplemented!() }
    #[verifier::external_body]
    pub fn close(self) -> (r: Result<(), Error>) ensures r is Err ==> os_error(r->Err_0) { unimplemented!() }
}
/// paths of temporary files are taken to be UTF-8
pub struct PathRef { pub p: String }
impl VDisp for PathRef { open spec fn disp(&self) -> Txt { self.p@ } }
impl VStr for PathRef { open spec fn sv(&self) -> Txt { self.p@ } fn v_as(&self) -> (r: &str) { self.p.as_str() } }
impl PathRef {
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self.p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: String) ensures r@ == self.p@ { unimplemented!() }
}
impl TempPath {
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self@.path { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: String) ensures r@ == self@.path { unimplemented!() }
    #[verifier::external_body]
    pub fn close(self) -> (r: Result<(), Error>) ensures r is Err ==> os_error(r->Err_0) { unimplemented!() }
}

// ---- what one execution is ----
pub open spec fn outcome(r: Result<Vec<u8>, Error>, text: Txt, args: Seq<CommandArg>) -> bool {
    match r {
        Ok(v) => exists|o: Output, f: File| #[trigger] ran(o, Cmd { program: "dot"@, args: arg_txts(args).push(f.path) }) && f.content == utf8(text) && exit_code(o.status) == Some(0i32) && v@ == o.stdout@,
        Err(e) => os_error(e) || exists|o: Output, f: File| #[trigger] ran(o, Cmd { program: "dot"@, args: arg_txts(args).push(f.path) }) && f.content == utf8(text) && exit_code(o.status) != Some(0i32) && says(e, lossy(o.stderr@)),
    }
}

// lower-casing the names of the variants, proved one by one
pub proof fn low_dot() ensures lower("Dot"@) == "dot"@, all_ascii("Dot"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Dot"); reveal_strlit("dot"); assert(lower("Dot"@) =~= "dot"@); }
pub proof fn low_neato() ensures lower("Neato"@) == "neato"@, all_ascii("Neato"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Neato"); reveal_strlit("neato"); assert(lower("Neato"@) =~= "neato"@); }
pub proof fn low_twopi() ensures lower("Twopi"@) == "twopi"@, all_ascii("Twopi"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Twopi"); reveal_strlit("twopi"); assert(lower("Twopi"@) =~= "twopi"@); }
pub proof fn low_circo() ensures lower("Circo"@) == "circo"@, all_ascii("Circo"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Circo"); reveal_strlit("circo"); assert(lower("Circo"@) =~= "circo"@); }
pub proof fn low_fdp() ensures lower("Fdp"@) == "fdp"@, all_ascii("Fdp"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Fdp"); reveal_strlit("fdp"); assert(lower("Fdp"@) =~= "fdp"@); }
pub proof fn low_patchwork() ensures lower("Patchwork"@) == "patchwork"@, all_ascii("Patchwork"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Patchwork"); reveal_strlit("patchwork"); assert(lower("Patchwork"@) =~= "patchwork"@); }
pub proof fn low_sfdp() ensures lower("Sfdp"@) == "sfdp"@, all_ascii("Sfdp"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Sfdp"); reveal_strlit("sfdp"); assert(lower("Sfdp"@) =~= "sfdp"@); }
pub proof fn low_bmp() ensures lower("Bmp"@) == "bmp"@, all_ascii("Bmp"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Bmp"); reveal_strlit("bmp"); assert(lower("Bmp"@) =~= "bmp"@); }
pub proof fn low_cgimage() ensures lower("Cgimage"@) == "cgimage"@, all_ascii("Cgimage"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Cgimage"); reveal_strlit("cgimage"); assert(lower("Cgimage"@) =~= "cgimage"@); }
pub proof fn low_canon() ensures lower("Canon"@) == "canon"@, all_ascii("Canon"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Canon"); reveal_strlit("canon"); assert(lower("Canon"@) =~= "canon"@); }
pub proof fn low_gv() ensures lower("Gv"@) == "gv"@, all_ascii("Gv"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Gv"); reveal_strlit("gv"); assert(lower("Gv"@) =~= "gv"@); }
pub proof fn low_xdot() ensures lower("Xdot"@) == "xdot"@, all_ascii("Xdot"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Xdot"); reveal_strlit("xdot"); assert(lower("Xdot"@) =~= "xdot"@); }
pub proof fn low_eps() ensures lower("Eps"@) == "eps"@, all_ascii("Eps"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Eps"); reveal_strlit("eps"); assert(lower("Eps"@) =~= "eps"@); }
pub proof fn low_exr() ensures lower("Exr"@) == "exr"@, all_ascii("Exr"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Exr"); reveal_strlit("exr"); assert(lower("Exr"@) =~= "exr"@); }
pub proof fn low_fig() ensures lower("Fig"@) == "fig"@, all_ascii("Fig"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Fig"); reveal_strlit("fig"); assert(lower("Fig"@) =~= "fig"@); }
pub proof fn low_gd() ensures lower("Gd"@) == "gd"@, all_ascii("Gd"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Gd"); reveal_strlit("gd"); assert(lower("Gd"@) =~= "gd"@); }
pub proof fn low_gd2() ensures lower("Gd2"@) == "gd2"@, all_ascii("Gd2"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Gd2"); reveal_strlit("gd2"); assert(lower("Gd2"@) =~= "gd2"@); }
pub proof fn low_gif() ensures lower("Gif"@) == "gif"@, all_ascii("Gif"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Gif"); reveal_strlit("gif"); assert(lower("Gif"@) =~= "gif"@); }
pub proof fn low_gtk() ensures lower("Gtk"@) == "gtk"@, all_ascii("Gtk"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Gtk"); reveal_strlit("gtk"); assert(lower("Gtk"@) =~= "gtk"@); }
pub proof fn low_ico() ensures lower("Ico"@) == "ico"@, all_ascii("Ico"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Ico"); reveal_strlit("ico"); assert(lower("Ico"@) =~= "ico"@); }
pub proof fn low_cmap() ensures lower("Cmap"@) == "cmap"@, all_ascii("Cmap"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Cmap"); reveal_strlit("cmap"); assert(lower("Cmap"@) =~= "cmap"@); }
pub proof fn low_ismap() ensures lower("Ismap"@) == "ismap"@, all_ascii("Ismap"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Ismap"); reveal_strlit("ismap"); assert(lower("Ismap"@) =~= "ismap"@); }
pub proof fn low_imap() ensures lower("Imap"@) == "imap"@, all_ascii("Imap"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Imap"); reveal_strlit("imap"); assert(lower("Imap"@) =~= "imap"@); }
pub proof fn low_cmapx() ensures lower("Cmapx"@) == "cmapx"@, all_ascii("Cmapx"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Cmapx"); reveal_strlit("cmapx"); assert(lower("Cmapx"@) =~= "cmapx"@); }
pub proof fn low_jpg() ensures lower("Jpg"@) == "jpg"@, all_ascii("Jpg"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Jpg"); reveal_strlit("jpg"); assert(lower("Jpg"@) =~= "jpg"@); }
pub proof fn low_jpeg() ensures lower("Jpeg"@) == "jpeg"@, all_ascii("Jpeg"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Jpeg"); reveal_strlit("jpeg"); assert(lower("Jpeg"@) =~= "jpeg"@); }
pub proof fn low_jpe() ensures lower("Jpe"@) == "jpe"@, all_ascii("Jpe"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Jpe"); reveal_strlit("jpe"); assert(lower("Jpe"@) =~= "jpe"@); }
pub proof fn low_jp2() ensures lower("Jp2"@) == "jp2"@, all_ascii("Jp2"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Jp2"); reveal_strlit("jp2"); assert(lower("Jp2"@) =~= "jp2"@); }
pub proof fn low_json() ensures lower("Json"@) == "json"@, all_ascii("Json"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Json"); reveal_strlit("json"); assert(lower("Json"@) =~= "json"@); }
pub proof fn low_json0() ensures lower("Json0"@) == "json0"@, all_ascii("Json0"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Json0"); reveal_strlit("json0"); assert(lower("Json0"@) =~= "json0"@); }
pub proof fn low_pdf() ensures lower("Pdf"@) == "pdf"@, all_ascii("Pdf"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Pdf"); reveal_strlit("pdf"); assert(lower("Pdf"@) =~= "pdf"@); }
pub proof fn low_pic() ensures lower("Pic"@) == "pic"@, all_ascii("Pic"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Pic"); reveal_strlit("pic"); assert(lower("Pic"@) =~= "pic"@); }
pub proof fn low_pct() ensures lower("Pct"@) == "pct"@, all_ascii("Pct"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Pct"); reveal_strlit("pct"); assert(lower("Pct"@) =~= "pct"@); }
pub proof fn low_pict() ensures lower("Pict"@) == "pict"@, all_ascii("Pict"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Pict"); reveal_strlit("pict"); assert(lower("Pict"@) =~= "pict"@); }
pub proof fn low_plain() ensures lower("Plain"@) == "plain"@, all_ascii("Plain"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Plain"); reveal_strlit("plain"); assert(lower("Plain"@) =~= "plain"@); }
pub proof fn low_png() ensures lower("Png"@) == "png"@, all_ascii("Png"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Png"); reveal_strlit("png"); assert(lower("Png"@) =~= "png"@); }
pub proof fn low_pov() ensures lower("Pov"@) == "pov"@, all_ascii("Pov"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Pov"); reveal_strlit("pov"); assert(lower("Pov"@) =~= "pov"@); }
pub proof fn low_ps() ensures lower("Ps"@) == "ps"@, all_ascii("Ps"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Ps"); reveal_strlit("ps"); assert(lower("Ps"@) =~= "ps"@); }
pub proof fn low_ps2() ensures lower("Ps2"@) == "ps2"@, all_ascii("Ps2"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Ps2"); reveal_strlit("ps2"); assert(lower("Ps2"@) =~= "ps2"@); }
pub proof fn low_psd() ensures lower("Psd"@) == "psd"@, all_ascii("Psd"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Psd"); reveal_strlit("psd"); assert(lower("Psd"@) =~= "psd"@); }
pub proof fn low_sgi() ensures lower("Sgi"@) == "sgi"@, all_ascii("Sgi"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Sgi"); reveal_strlit("sgi"); assert(lower("Sgi"@) =~= "sgi"@); }
pub proof fn low_svg() ensures lower("Svg"@) == "svg"@, all_ascii("Svg"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Svg"); reveal_strlit("svg"); assert(lower("Svg"@) =~= "svg"@); }
pub proof fn low_svgz() ensures lower("Svgz"@) == "svgz"@, all_ascii("Svgz"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Svgz"); reveal_strlit("svgz"); assert(lower("Svgz"@) =~= "svgz"@); }
pub proof fn low_tga() ensures lower("Tga"@) == "tga"@, all_ascii("Tga"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Tga"); reveal_strlit("tga"); assert(lower("Tga"@) =~= "tga"@); }
pub proof fn low_tif() ensures lower("Tif"@) == "tif"@, all_ascii("Tif"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Tif"); reveal_strlit("tif"); assert(lower("Tif"@) =~= "tif"@); }
pub proof fn low_tiff() ensures lower("Tiff"@) == "tiff"@, all_ascii("Tiff"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Tiff"); reveal_strlit("tiff"); assert(lower("Tiff"@) =~= "tiff"@); }
pub proof fn low_tk() ensures lower("Tk"@) == "tk"@, all_ascii("Tk"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Tk"); reveal_strlit("tk"); assert(lower("Tk"@) =~= "tk"@); }
pub proof fn low_vml() ensures lower("Vml"@) == "vml"@, all_ascii("Vml"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Vml"); reveal_strlit("vml"); assert(lower("Vml"@) =~= "vml"@); }
pub proof fn low_vmlz() ensures lower("Vmlz"@) == "vmlz"@, all_ascii("Vmlz"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Vmlz"); reveal_strlit("vmlz"); assert(lower("Vmlz"@) =~= "vmlz"@); }
pub proof fn low_vrml() ensures lower("Vrml"@) == "vrml"@, all_ascii("Vrml"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Vrml"); reveal_strlit("vrml"); assert(lower("Vrml"@) =~= "vrml"@); }
pub proof fn low_webp() ensures lower("Webp"@) == "webp"@, all_ascii("Webp"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Webp"); reveal_strlit("webp"); assert(lower("Webp"@) =~= "webp"@); }
pub proof fn low_xlib() ensures lower("Xlib"@) == "xlib"@, all_ascii("Xlib"@) { reveal(lower); reveal(all_ascii); reveal_strlit("Xlib"); reveal_strlit("xlib"); assert(lower("Xlib"@) =~= "xlib"@); }
pub proof fn low_x11() ensures lower("X11"@) == "x11"@, all_ascii("X11"@) { reveal(lower); reveal(all_ascii); reveal_strlit("X11"); reveal_strlit("x11"); assert(lower("X11"@) =~= "x11"@); }
impl CommandArg {
//@fn graphviz::cmd::<CommandArg>::prepare
//@sig self
//@ret r
//@spec
    ensures r@ == arg_txt(*self), //#[C12]
//@pre
    // "bmp", "canon", "cgimage", "circo", "cmap", "cmapx", "cmapx_np", "dot", "dot_json", "eps", "exr", "fdp", "fig", "gd", "gd2", "gif", "gtk", "gv", "ico", "imap", "imap_np", "ismap", "jp2", "jpe", "jpeg", "jpg", "json", "json0", "neato", "osage", "patchwork", "pct", "pdf", "pic", "pict", "plain", "plain-ext", "png", "pov", "ps", "ps2", "psd", "sfdp", "sgi", "svg", "svgz", "tga", "tif", "tiff", "tk", "twopi", "vml", "vmlz", "vrml", "wbmp", "webp", "x11", "xdot", "xdot1.2", "xdot1.4", "xdot_json", "xlib"
    proof { low_dot(); low_neato(); low_twopi(); low_circo(); low_fdp(); low_patchwork(); low_sfdp(); low_bmp(); low_cgimage(); low_canon(); low_gv(); low_xdot(); low_eps(); low_exr(); low_fig(); low_gd(); low_gd2(); low_gif(); low_gtk(); low_ico(); low_cmap(); low_ismap(); low_imap(); low_cmapx(); low_jpg(); low_jpeg(); low_jpe(); low_jp2(); low_json(); low_json0(); low_pdf(); low_pic(); low_pct(); low_pict(); low_plain(); low_png(); low_pov(); low_ps(); low_ps2(); low_psd(); low_sgi(); low_svg(); low_svgz(); low_tga(); low_tif(); low_tiff(); low_tk(); low_vml(); low_vmlz(); low_vrml(); low_webp(); low_xlib(); low_x11(); }
//@end
}

impl vstd::std_specs::convert::FromSpecImpl<Layout> for CommandArg {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(value: Layout) -> CommandArg { CommandArg::Layout(value) } //#[C12]
}
impl From<Layout> for CommandArg {
//@fn graphviz::cmd::<From<Layout> for CommandArg>::from
//@sig value
//@ret r
//@spec
    ensures r == CommandArg::Layout(value), //#[C12]
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Format> for CommandArg {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(value: Format) -> CommandArg { CommandArg::Format(value) } //#[C12]
}
impl From<Format> for CommandArg {
//@fn graphviz::cmd::<From<Format> for CommandArg>::from
//@sig value
//@ret r
//@spec
    ensures r == CommandArg::Format(value), //#[C12]
//@end
}
pub mod cmd {
    use super::*;
//@fn graphviz::cmd::temp_file
//@sig text
//@ret r
//@opt result
//@spec
    ensures r is Ok ==> r->Ok_0@.content == utf8(text@), r is Err ==> os_error(r->Err_0), //#[C13]
//@end
//@fn graphviz::cmd::do_exec
//@sig input, args
//@ret r
//@opt result
//@spec
    ensures r is Ok ==> ran(r->Ok_0, Cmd { program: "dot"@, args: views(args@).push(input@) }), r is Err ==> os_error(r->Err_0), //#[C13]
//@loop
    invariant $m0@.program == "dot"@, $over(args@),
        $m0@.args =~= views(args@).take(args@.len() - $it@.len()), $it@.len() == 0 ==> $m0@.args =~= views(args@),
    decreases $it@.len(),
//@loop
    invariant $m0@.program == "dot"@, $m1 <= args@.len(),
        $m0@.args =~= views(args@).take($m1 as int), $m1 == args@.len() ==> $m0@.args =~= views(args@),
    decreases args@.len() - $m1,
//@loop
    invariant $m1@.program == "dot"@, $m0 <= args@.len(),
        $m1@.args =~= views(args@).take($m0 as int), $m0 == args@.len() ==> $m1@.args =~= views(args@),
    decreases args@.len() - $m0,
//@end
//@fn graphviz::cmd::exec
//@sig graph, args
//@ret r
//@opt result
//@spec
    ensures outcome(r, graph@, args@), //#[C13]
//@loop
    invariant $over(args@),
        views($acc@).len() == args@.len() - $it@.len(), forall|k: int| 0 <= k < views($acc@).len() ==> #[trigger] views($acc@)[k] == arg_txt(args@[k]),
        $it@.len() == 0 ==> views($acc@) =~= arg_txts(args@),
    decreases $it@.len(),
//@loop
    invariant $m0 <= args@.len(), views($m1@).len() == $m0, forall|k: int| 0 <= k < views($m1@).len() ==> #[trigger] views($m1@)[k] == arg_txt(args@[k]),
        $m0 == args@.len() ==> views($m1@) =~= arg_txts(args@),
    decreases args@.len() - $m0,
//@loop
    invariant $m1 <= args@.len(), views($m0@).len() == $m1, forall|k: int| 0 <= k < views($m0@).len() ==> #[trigger] views($m0@)[k] == arg_txt(args@[k]),
        $m1 == args@.len() ==> views($m0@) =~= arg_txts(args@),
    decreases args@.len() - $m1,
//@end
}

// ---- the crate's entry points; what print writes is C01..C05 ----
#[verifier::external_body]
pub struct Graph { g: u8 }
#[verifier::external_body]
pub struct PrinterContext { c: u8 }
pub uninterp spec fn printed(g: Graph, c: PrinterContext) -> Txt;
impl Graph {
    #[verifier::external_body]
    pub fn print(&self, ctx: &mut PrinterContext) -> (r: String) ensures r@ == printed(*self, *old(ctx)) { unimplemented!() }
}
//@fn graphviz::print
//@sig graph, ctx
//@ret r
//@spec
    ensures r@ == printed(graph, *old(ctx)), //#[C13]
//@end
//@fn graphviz::exec
//@sig graph, ctx, args
//@ret r
//@opt result
//@spec
    ensures outcome(r, printed(graph, *old(ctx)), args@), //#[C13]
//@end
//@fn graphviz::exec_dot
//@sig text, args
//@ret r
//@opt result
//@spec
    ensures outcome(r, text@, args@), //#[C13]
//@end
} // verus!
fn main() {}
