//! Calls into rspolib from the scenarios.
use crate::engine::PANIC_MSG;
use crate::model::MC;
use crate::sim::{hash_bytes, sched, w, Inside, DEPTH};
use rspolib::errors::SyntaxError;
use rspolib::{mofile, pofile, FileOptions, MOFile, POFile, Save, SaveAsMOFile, SaveAsPOFile};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Result of a save, whether it reports by returning or by panicking.
pub trait Told {
    fn told(self) -> Result<(), String>;
}
impl Told for () {
    fn told(self) -> Result<(), String> {
        Ok(())
    }
}
impl<T, E: std::fmt::Debug> Told for Result<T, E> {
    fn told(self) -> Result<(), String> {
        self.map(|_| ()).map_err(|e| format!("{:?}", e))
    }
}

/// Run library code; Err holds the panic message.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let d = DEPTH.with(|x| x.replace(0));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|x| x.set(d));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}
/// Run harness code in a simulated process of its own.
pub fn process<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    sched::solo(move || {
        let _i = Inside::new();
        f()
    })
}

/// Error of an open, free of file names.
pub fn err_key(e: &SyntaxError) -> String {
    match e {
        SyntaxError::UnescapedDoubleQuoteFound { line, index, .. } => format!("UnescapedDoubleQuoteFound line {} index {}", line, index),
        SyntaxError::Custom { line, index, message, .. } => format!("Custom line {} index {} {}", line, index, message),
        SyntaxError::BasicCustom { message, .. } => format!("BasicCustom {}", message),
        SyntaxError::Generic { line, index, .. } => format!("Generic line {} index {}", line, index),
        #[allow(unreachable_patterns)]
        x => format!("{:?}", x),
    }
}
/// Outcome of an open: the catalogue as plain data, an error, or a panic.
#[derive(Clone, Debug, PartialEq)]
pub enum Opened {
    Cat(MC),
    Err(String),
    Panic(String),
}
impl Opened {
    pub fn brief(&self) -> String {
        match self {
            Opened::Cat(m) => format!("catalogue with {}", m.brief()),
            Opened::Err(e) => format!("error {}", crate::model::brief(e)),
            Opened::Panic(p) => format!("panic {}", crate::model::brief(p)),
        }
    }
    fn log(self, what: &str) -> Opened {
        let h = hash_bytes(format!("{:?}", self).as_bytes());
        let b = self.brief();
        w().note(|| format!("<= {}: {}", what, b), h);
        self
    }
}
fn po_result(r: Result<Result<POFile, SyntaxError>, String>) -> (Opened, Option<POFile>) {
    match r {
        Err(p) => (Opened::Panic(p), None),
        Ok(Err(e)) => (Opened::Err(err_key(&e)), None),
        Ok(Ok(f)) => (Opened::Cat(MC::of_po(&f).canon()), Some(f)),
    }
}
pub fn open_po_opt(o: FileOptions, what: &str) -> (Opened, Option<POFile>) {
    w().note(|| format!("=> open PO {}", what), 1);
    let (a, b) = po_result(lib(|| pofile(o)));
    (a.log("open PO"), b)
}
pub fn open_po(path: &str) -> (Opened, Option<POFile>) {
    open_po_opt(FileOptions::from(path), path)
}
pub fn open_mo_opt(o: FileOptions, what: &str) -> (Opened, Option<MOFile>) {
    w().note(|| format!("=> open MO {}", what), 2);
    let (a, b) = match lib(|| mofile(o)) {
        Err(p) => (Opened::Panic(p), None),
        Ok(Err(e)) => (Opened::Err(format!("{:?}", e)), None),
        Ok(Ok(f)) => (Opened::Cat(MC::of_mo(&f)), Some(f)),
    };
    (a.log("open MO"), b)
}
pub fn open_mo(path: &str) -> (Opened, Option<MOFile>) {
    open_mo_opt(FileOptions::from(path), path)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SaveKind {
    PoSave,
    PoAsPo,
    PoAsMo,
    MoSave,
    MoAsMo,
    MoAsPo,
}
pub const SAVE_KINDS: [SaveKind; 6] = [SaveKind::PoSave, SaveKind::PoAsPo, SaveKind::PoAsMo, SaveKind::MoSave, SaveKind::MoAsMo, SaveKind::MoAsPo];

pub enum Cat {
    Po(POFile),
    Mo(MOFile),
}
/// Save and report what the caller is told.
pub fn save(c: &Cat, k: SaveKind, path: &str) -> Result<(), String> {
    w().note(|| format!("=> {:?} to {:?}", k, path), 3);
    let r = lib(|| match (c, k) {
        (Cat::Po(f), SaveKind::PoSave) => f.save(path).told(),
        (Cat::Po(f), SaveKind::PoAsPo) => f.save_as_pofile(path).told(),
        (Cat::Po(f), _) => f.save_as_mofile(path).told(),
        (Cat::Mo(f), SaveKind::MoSave) => f.save(path).told(),
        (Cat::Mo(f), SaveKind::MoAsPo) => f.save_as_pofile(path).told(),
        (Cat::Mo(f), _) => f.save_as_mofile(path).told(),
    });
    let r = match r {
        Ok(x) => x,
        Err(p) => Err(p),
    };
    let b = r.clone();
    w().note(|| format!("<= save {:?}", b), r.is_ok() as u64);
    r
}
/// What a complete save must leave in the file.
pub fn expected(c: &Cat, k: SaveKind) -> Vec<u8> {
    use rspolib::AsBytes;
    let r = lib(|| match (c, k) {
        (Cat::Po(f), SaveKind::PoSave | SaveKind::PoAsPo) => f.to_string().into_bytes(),
        (Cat::Po(f), _) => f.as_bytes().into_owned(),
        (Cat::Mo(f), SaveKind::MoAsPo) => f.to_string().into_bytes(),
        (Cat::Mo(f), _) => f.as_bytes().into_owned(),
    });
    match r {
        Ok(b) => b,
        Err(p) => crate::engine::violation("render_panic", &format!("rendering a catalogue panicked: {}", p)),
    }
}
