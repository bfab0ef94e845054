//! C12, C13: what is handed to dot, and what comes back.  `dot` is this very program under that name,
//! first on PATH; it records how it was called and answers as the case asks.
use crate::ctx::Ctx;
use crate::gen::{self, Rng};
use crate::{fail, on, Case, Res};
use graphviz_rust::cmd::{CommandArg, Format, Layout};
use graphviz_rust::printer::DotPrinter;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::sync::OnceLock;

static DIR: OnceLock<PathBuf> = OnceLock::new();

fn dir() -> &'static PathBuf {
    DIR.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("vreplay-{}", std::process::id()));
        fs::create_dir_all(d.join("bin")).unwrap();
        fs::create_dir_all(d.join("none")).unwrap();
        fs::create_dir_all(d.join("tmp")).unwrap();
        let me = std::env::current_exe().unwrap();
        std::os::unix::fs::symlink(me, d.join("bin/dot")).unwrap();
        std::env::set_var("VREPLAY_DIR", &d);
        d
    })
}
pub fn cleanup() {
    if let Some(d) = DIR.get() {
        let _ = fs::remove_dir_all(d);
    }
}

/// the stand-in for dot
pub fn fake_dot(_a: &[String]) {
    let d = PathBuf::from(std::env::var("VREPLAY_DIR").unwrap());
    let args: Vec<std::ffi::OsString> = std::env::args_os().skip(1).collect();
    let mut rec = fs::OpenOptions::new().create(true).append(true).open(d.join("calls")).unwrap();
    let _ = rec.write_all(b"x");
    let mut all = vec![];
    for a in &args {
        all.extend_from_slice(a.as_bytes());
        all.push(0);
    }
    let _ = fs::write(d.join("args"), all);
    if let Some(f) = args.last() {
        match fs::read(f) {
            Ok(b) => drop(fs::write(d.join("input"), b)),
            Err(_) => drop(fs::remove_file(d.join("input"))),
        }
    }
    let out = fs::read(d.join("out")).unwrap_or_default();
    let err = fs::read(d.join("err")).unwrap_or_default();
    let mode = fs::read_to_string(d.join("mode")).unwrap_or_default();
    // both streams at once, so that a reader that drains only one of them is found out
    let h = std::thread::spawn(move || {
        let _ = std::io::stderr().write_all(&err);
    });
    {
        let mut o = std::io::stdout().lock();
        let _ = o.write_all(&out);
        let _ = o.flush();
    }
    let _ = h.join();
    if mode == "kill" {
        std::process::abort();
    }
    std::process::exit(mode.parse().unwrap_or(0));
}

fn layouts() -> Vec<(Layout, &'static str)> {
    use Layout::*;
    vec![(Dot, "dot"), (Neato, "neato"), (Twopi, "twopi"), (Circo, "circo"), (Fdp, "fdp"), (Asage, "osage"), (Patchwork, "patchwork"), (Sfdp, "sfdp")]
}
fn formats() -> Vec<(Format, &'static str)> {
    use Format::*;
    vec![
        (Bmp, "bmp"), (Cgimage, "cgimage"), (Canon, "canon"), (Dot, "dot"), (Gv, "gv"), (Xdot, "xdot"), (Xdot12, "xdot1.2"), (Xdot14, "xdot1.4"), (Eps, "eps"), (Exr, "exr"),
        (Fig, "fig"), (Gd, "gd"), (Gd2, "gd2"), (Gif, "gif"), (Gtk, "gtk"), (Ico, "ico"), (Cmap, "cmap"), (Ismap, "ismap"), (Imap, "imap"), (Cmapx, "cmapx"),
        (ImapNp, "imap_np"), (CmapxNp, "cmapx_np"), (Jpg, "jpg"), (Jpeg, "jpeg"), (Jpe, "jpe"), (Jp2, "jp2"), (Json, "json"), (Json0, "json0"), (DotJson, "dot_json"),
        (XdotJson, "xdot_json"), (Pdf, "pdf"), (Pic, "pic"), (Pct, "pct"), (Pict, "pict"), (Plain, "plain"), (PlainExt, "plain-ext"), (Png, "png"), (Pov, "pov"), (Ps, "ps"),
        (Ps2, "ps2"), (Psd, "psd"), (Sgi, "sgi"), (Svg, "svg"), (Svgz, "svgz"), (Tga, "tga"), (Tif, "tif"), (Tiff, "tiff"), (Tk, "tk"), (Vml, "vml"), (Vmlz, "vmlz"),
        (Vrml, "vrml"), (Vbmp, "wbmp"), (Webp, "webp"), (Xlib, "xlib"), (X11, "x11"),
    ]
}
fn text(r: &mut Rng) -> String {
    let n = r.num(8, 3000).unwrap_or(r.up(6));
    (0..n).map(|_| r.bit(6).unwrap_or_default().replace('\0', "") + *r.pick(&["a", " ", "-", "é", "\n", "\"", "'", "$HOME", "*", "/", "out.svg", "../", "=", ":", "-T", "\\", "%s", "{}", ".", "O", "K"])).collect()
}
/// an argument and the text dot must see
fn arg(r: &mut Rng, fixed: Option<u64>) -> (CommandArg, String) {
    let (ls, fs) = (layouts(), formats());
    let k = fixed.map(|i| i as usize).unwrap_or_else(|| r.up(ls.len() + fs.len()));
    if fixed.is_none() && r.chance(1, 2) {
        let s = text(r);
        return if r.chance(1, 2) { (CommandArg::Output(s.clone()), format!("-o{s}")) } else { (CommandArg::Custom(s.clone()), s) };
    }
    if k < ls.len() {
        let (l, n) = ls[k];
        (if r.chance(1, 2) { CommandArg::Layout(l) } else { l.into() }, format!("-K{n}"))
    } else {
        let (f, n) = fs[(k - ls.len()) % fs.len()];
        (if r.chance(1, 2) { CommandArg::Format(f) } else { f.into() }, format!("-T{n}"))
    }
}
struct Answer {
    /// exit status, or None: killed
    code: Option<u8>,
    out: Vec<u8>,
    err: Vec<u8>,
}
fn bytes_of(r: &mut Rng) -> Vec<u8> {
    let n = r.up(3) * r.up(9);
    (0..n).map(|_| *r.pick(b"abc \n<>/svg")).collect()
}
fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.up(6) {
        0 => 0,
        1 | 2 => 1 + r.up(20),
        3 | 4 => r.up(400),
        _ => 70_000 + r.up(150_000),
    };
    let n = r.num(5, 300_000).unwrap_or(n);
    if let Some(s) = r.bit(5) {
        let (a, b) = (bytes_of(r), bytes_of(r));
        return [a, s.into_bytes(), b].concat();
    }
    let ascii = r.chance(1, 2);
    (0..n).map(|_| if ascii { *r.pick(b"abc \n<>/svg") } else { r.up(256) as u8 }).collect()
}
fn arrange(a: &Answer) {
    let d = dir();
    for f in ["calls", "args", "input"] {
        let _ = fs::remove_file(d.join(f));
    }
    fs::write(d.join("out"), &a.out).unwrap();
    fs::write(d.join("err"), &a.err).unwrap();
    fs::write(d.join("mode"), a.code.map(|c| c.to_string()).unwrap_or("kill".into())).unwrap();
    std::env::set_var("TMPDIR", d.join("tmp"));
    std::env::set_var("PATH", d.join("bin"));
    // whatever an earlier case may have left
    let _ = fs::remove_dir_all(d.join("tmp"));
    fs::create_dir_all(d.join("tmp")).unwrap();
}
fn seen_args() -> Vec<String> {
    let b = fs::read(dir().join("args")).unwrap_or_default();
    let mut v: Vec<String> = b.split(|c| *c == 0).map(|s| String::from_utf8_lossy(s).to_string()).collect();
    v.pop();
    v
}
fn left() -> Vec<String> {
    fs::read_dir(dir().join("tmp")).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default()
}

pub fn c12(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c12", i);
    arrange(&Answer { code: Some(0), out: vec![], err: vec![] });
    let total = (layouts().len() + formats().len()) as u64;
    let mut v = vec![];
    if i < total {
        v.push(arg(&mut r, Some(i)));
    } else {
        for _ in 0..r.num(8, 200).unwrap_or(r.up(6)) {
            if !v.is_empty() && r.chance(1, 6) {
                // the same once more
                let s: String = v[r.up(v.len())].1.clone();
                v.push((CommandArg::Custom(s.clone()), s));
                continue;
            }
            v.push(arg(&mut r, None));
        }
    }
    let want: Vec<String> = v.iter().map(|x| x.1.clone()).collect();
    on(&format!("arguments {want:?}"));
    let res = graphviz_rust::exec_dot("graph{}".into(), v.into_iter().map(|x| x.0).collect());
    let mut got = seen_args();
    got.pop();
    if res.is_err() || got != want {
        return fail(format!("arguments for {want:?}"), format!("{want:?}"), format!("{got:?} (result {res:?})"));
    }
    Ok(Case { desc: format!("{want:?}"), nontrivial: !want.is_empty() })
}

pub fn c13(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed, "c13", i);
    let a = Answer { code: if r.chance(1, 12) { None } else if r.chance(1, 2) { Some(0) } else { Some(r.num(3, 255).filter(|n| *n > 0).map(|n| n as u8).unwrap_or(*r.pick(&[1, 2, 3, 4, 8, 16, 32, 64, 100, 126, 127, 128, 130, 137, 192, 254, 255]))) }, out: bytes(&mut r), err: bytes(&mut r) };
    arrange(&a);
    let v: Vec<(CommandArg, String)> = (0..r.up(5)).map(|_| arg(&mut r, None)).collect();
    let want_args: Vec<String> = v.iter().map(|x| x.1.clone()).collect();
    let args: Vec<CommandArg> = v.into_iter().map(|x| x.0).collect();
    let special = r.up(14);
    match special {
        0 => std::env::set_var("PATH", dir().join("none")),
        1 => std::env::set_var("TMPDIR", dir().join("missing")),
        _ => {}
    }
    let (res, text) = if r.chance(1, 2) {
        let mut sh = gen::shape(&mut r, i);
        sh.short_chains = true;
        let g = gen::graph(&mut r, sh);
        let c = Ctx::random(&mut r, false, true);
        let text = g.print(&mut c.build());
        on(&format!("context {c:?}, graph {g:?}"));
        (graphviz_rust::exec(g, &mut c.build(), args), text)
    } else {
        let text: String = match r.up(5) {
            0 => String::new(),
            1 => "é\u{0}\r\n\t😀".repeat(1 + r.up(3000)),
            _ => (0..1 + r.num(4, 100_000).unwrap_or(r.up(2000))).map(|_| r.bit(9).unwrap_or_default() + *r.pick(&["graph{a}", "\n", " ", "é", "\"", "\\", "->"])).collect(),
        };
        on(&format!("text {text:?}"));
        (graphviz_rust::exec_dot(text.clone(), args), text)
    };
    let calls = fs::read(dir().join("calls")).map(|b| b.len()).unwrap_or(0);
    let input = format!(
        "arguments {want_args:?}, text of {} bytes starting {:?}, dot {} with {} bytes on stdout and {} on stderr{}",
        text.len(),
        text.chars().take(60).collect::<String>(),
        match a.code {
            None => "is killed".to_string(),
            Some(c) => format!("exits with {c}"),
        },
        a.out.len(),
        a.err.len(),
        match special {
            0 => ", but there is no dot",
            1 => ", but no temporary file can be made",
            _ => "",
        }
    );
    if !left().is_empty() {
        return fail(input, "no temporary file left", format!("left: {:?}", left()));
    }
    if special < 2 {
        return if res.is_ok() || calls != 0 { fail(input, "an error", format!("{res:?}")) } else { Ok(Case { desc: input, nontrivial: true }) };
    }
    if calls != 1 {
        return fail(input, "dot is started once", format!("{calls} times"));
    }
    let mut got = seen_args();
    let path = got.pop().unwrap_or_default();
    if got != want_args {
        return fail(input, format!("{want_args:?} and a path"), format!("{got:?} and {path:?}"));
    }
    match fs::read(dir().join("input")) {
        Ok(b) if b == text.as_bytes() => {}
        Ok(b) => return fail(input, format!("the file holds {text:?}"), format!("{:?}", String::from_utf8_lossy(&b))),
        Err(_) => return fail(input, "a file at the last argument", format!("no file {path:?}")),
    }
    match (&a.code, &res) {
        (Some(0), Ok(o)) if *o == a.out => {}
        (Some(0), r) => return fail(input, format!("Ok({} bytes)", a.out.len()), format!("{:?}", r.as_ref().map(|x| x.len()))),
        (_, Err(e)) if e.to_string() == String::from_utf8_lossy(&a.err) => {}
        (_, r) => return fail(input, format!("an error with {:?}", String::from_utf8_lossy(&a.err).chars().take(200).collect::<String>()), format!("{:?}", r.as_ref().map(|x| x.len()).map_err(|e| e.to_string().chars().take(200).collect::<String>()))),
    }
    Ok(Case { desc: input, nontrivial: true })
}
