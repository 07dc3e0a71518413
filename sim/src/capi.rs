//! As much of CPython's C interface as a caller of the module needs.
use std::ffi::{c_char, c_int, c_long, CString};

type Obj = *mut u8;
#[allow(non_snake_case)]
extern "C" {
    static mut _Py_NoneStruct: u8;
    fn PyGILState_Ensure() -> c_int;
    fn PyGILState_Release(s: c_int);
    fn PyImport_ImportModule(n: *const c_char) -> Obj;
    fn PyObject_GetAttrString(o: Obj, n: *const c_char) -> Obj;
    fn PyObject_SetAttrString(o: Obj, n: *const c_char, v: Obj) -> c_int;
    fn PyObject_Call(f: Obj, a: Obj, k: Obj) -> Obj;
    fn PyObject_Str(o: Obj) -> Obj;
    fn PyObject_Type(o: Obj) -> Obj;
    fn PyObject_IsTrue(o: Obj) -> c_int;
    fn PyObject_RichCompare(a: Obj, b: Obj, op: c_int) -> Obj;
    fn PySequence_Contains(o: Obj, x: Obj) -> c_int;
    fn PyObject_Size(o: Obj) -> isize;
    fn PySequence_GetItem(o: Obj, i: isize) -> Obj;
    fn PyObject_GetIter(o: Obj) -> Obj;
    fn PyIter_Next(o: Obj) -> Obj;
    fn PyMapping_Items(o: Obj) -> Obj;
    fn PyTuple_New(n: isize) -> Obj;
    fn PyTuple_SetItem(t: Obj, i: isize, v: Obj) -> c_int;
    fn PyList_New(n: isize) -> Obj;
    fn PyList_SetItem(t: Obj, i: isize, v: Obj) -> c_int;
    fn PyDict_New() -> Obj;
    fn PyDict_SetItem(d: Obj, k: Obj, v: Obj) -> c_int;
    fn PyUnicode_FromStringAndSize(s: *const u8, n: isize) -> Obj;
    fn PyUnicode_AsUTF8AndSize(o: Obj, n: *mut isize) -> *const u8;
    fn PyLong_FromLong(n: c_long) -> Obj;
    fn PyLong_AsLong(o: Obj) -> c_long;
    fn PyBool_FromLong(n: c_long) -> Obj;
    fn PyFloat_AsDouble(o: Obj) -> f64;
    fn PyErr_GetRaisedException() -> Obj;
    fn PyErr_Occurred() -> Obj;
    fn Py_IncRef(o: Obj);
    fn Py_DecRef(o: Obj);
}

/// The interpreter lock.
pub struct Gil(c_int);
impl Gil {
    pub fn new() -> Gil {
        Gil(unsafe { PyGILState_Ensure() })
    }
}
impl Drop for Gil {
    fn drop(&mut self) {
        unsafe { PyGILState_Release(self.0) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Exc {
    pub class: String,
    pub msg: String,
}
impl std::fmt::Display for Exc {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}: {}", self.class, self.msg)
    }
}
pub type R<T> = Result<T, Exc>;

pub struct Py(Obj);
impl Drop for Py {
    fn drop(&mut self) {
        unsafe { Py_DecRef(self.0) }
    }
}
impl Clone for Py {
    fn clone(&self) -> Py {
        unsafe { Py_IncRef(self.0) };
        Py(self.0)
    }
}
fn raised() -> Exc {
    unsafe {
        let e = PyErr_GetRaisedException();
        if e.is_null() {
            return Exc { class: "none".into(), msg: "no exception set".into() };
        }
        let e = Py(e);
        let t = Py(PyObject_Type(e.0));
        let name = |n: &str| t.get(n).and_then(|x| x.text()).unwrap_or_default();
        let class = format!("{}.{}", name("__module__"), name("__name__"));
        let s = PyObject_Str(e.0);
        let msg = if s.is_null() {
            PyErr_GetRaisedException();
            String::new()
        } else {
            Py(s).text().unwrap_or_default()
        };
        Exc { class, msg }
    }
}
fn own(o: Obj) -> R<Py> {
    if o.is_null() {
        Err(raised())
    } else {
        Ok(Py(o))
    }
}
fn flag(r: c_int) -> R<bool> {
    if r < 0 {
        Err(raised())
    } else {
        Ok(r == 1)
    }
}
fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub fn none() -> Py {
    unsafe {
        let n = std::ptr::addr_of_mut!(_Py_NoneStruct);
        Py_IncRef(n);
        Py(n)
    }
}
pub fn text(s: &str) -> Py {
    Py(unsafe { PyUnicode_FromStringAndSize(s.as_ptr(), s.len() as isize) })
}
pub fn opt(s: &Option<String>) -> Py {
    s.as_ref().map_or_else(none, |s| text(s))
}
pub fn int(n: usize) -> Py {
    Py(unsafe { PyLong_FromLong(n as c_long) })
}
pub fn boolean(b: bool) -> Py {
    Py(unsafe { PyBool_FromLong(b as c_long) })
}
pub fn list(v: Vec<Py>) -> Py {
    unsafe {
        let l = PyList_New(v.len() as isize);
        for (i, x) in v.into_iter().enumerate() {
            PyList_SetItem(l, i as isize, x.0);
            std::mem::forget(x);
        }
        Py(l)
    }
}
pub fn tuple(v: Vec<Py>) -> Py {
    unsafe {
        let l = PyTuple_New(v.len() as isize);
        for (i, x) in v.into_iter().enumerate() {
            PyTuple_SetItem(l, i as isize, x.0);
            std::mem::forget(x);
        }
        Py(l)
    }
}
pub fn texts(v: &[String]) -> Py {
    list(v.iter().map(|s| text(s)).collect())
}
pub fn dict(v: &[(&str, Py)]) -> Py {
    unsafe {
        let d = Py(PyDict_New());
        for (k, x) in v {
            PyDict_SetItem(d.0, text(k).0, x.0);
        }
        d
    }
}
pub fn module() -> Py {
    own(unsafe { PyImport_ImportModule(c("rspolib").as_ptr()) }).unwrap_or_else(|e| panic!("import of rspolib: {}", e))
}

impl Py {
    pub fn get(&self, n: &str) -> R<Py> {
        own(unsafe { PyObject_GetAttrString(self.0, c(n).as_ptr()) })
    }
    pub fn set(&self, n: &str, v: Py) -> R<()> {
        flag(unsafe { PyObject_SetAttrString(self.0, c(n).as_ptr(), v.0) }).map(|_| ())
    }
    pub fn call(&self, n: &str, a: Vec<Py>) -> R<Py> {
        self.call_kw(n, a, &[])
    }
    pub fn call_kw(&self, n: &str, a: Vec<Py>, k: &[(&str, Py)]) -> R<Py> {
        let f = self.get(n)?;
        let (a, k) = (tuple(a), dict(k));
        own(unsafe { PyObject_Call(f.0, a.0, k.0) })
    }
    pub fn is_none(&self) -> bool {
        self.0 == std::ptr::addr_of_mut!(_Py_NoneStruct)
    }
    pub fn text(&self) -> R<String> {
        unsafe {
            let mut n = 0;
            let p = PyUnicode_AsUTF8AndSize(self.0, &mut n);
            if p.is_null() {
                return Err(raised());
            }
            Ok(String::from_utf8(std::slice::from_raw_parts(p, n as usize).to_vec()).unwrap())
        }
    }
    pub fn str(&self) -> R<String> {
        own(unsafe { PyObject_Str(self.0) })?.text()
    }
    pub fn opt(&self) -> R<Option<String>> {
        if self.is_none() {
            Ok(None)
        } else {
            self.text().map(Some)
        }
    }
    pub fn truth(&self) -> R<bool> {
        flag(unsafe { PyObject_IsTrue(self.0) })
    }
    pub fn int(&self) -> R<i64> {
        let n = unsafe { PyLong_AsLong(self.0) };
        if n == -1 && unsafe { !PyErr_Occurred().is_null() } {
            return Err(raised());
        }
        Ok(n)
    }
    pub fn float(&self) -> R<f64> {
        let n = unsafe { PyFloat_AsDouble(self.0) };
        if unsafe { !PyErr_Occurred().is_null() } {
            return Err(raised());
        }
        Ok(n)
    }
    pub fn len(&self) -> R<usize> {
        let n = unsafe { PyObject_Size(self.0) };
        if n < 0 {
            return Err(raised());
        }
        Ok(n as usize)
    }
    pub fn item(&self, i: usize) -> R<Py> {
        own(unsafe { PySequence_GetItem(self.0, i as isize) })
    }
    pub fn has(&self, x: &Py) -> R<bool> {
        flag(unsafe { PySequence_Contains(self.0, x.0) })
    }
    /// 0 <, 1 <=, 2 ==, 3 !=, 4 >, 5 >=
    pub fn compare(&self, x: &Py, op: i32) -> R<bool> {
        own(unsafe { PyObject_RichCompare(self.0, x.0, op) })?.truth()
    }
    pub fn items(&self) -> R<Vec<Py>> {
        let it = own(unsafe { PyObject_GetIter(self.0) })?;
        let mut v = Vec::new();
        loop {
            let x = unsafe { PyIter_Next(it.0) };
            if x.is_null() {
                if unsafe { !PyErr_Occurred().is_null() } {
                    return Err(raised());
                }
                return Ok(v);
            }
            v.push(Py(x));
        }
    }
    pub fn texts(&self) -> R<Vec<String>> {
        self.items()?.iter().map(|x| x.text()).collect()
    }
    pub fn pairs(&self) -> R<Vec<(String, String)>> {
        self.items()?.iter().map(|x| Ok((x.item(0)?.text()?, x.item(1)?.text()?))).collect()
    }
    pub fn dict_pairs(&self) -> R<Vec<(String, String)>> {
        own(unsafe { PyMapping_Items(self.0) })?.pairs()
    }
    /// Bytes, whether given as bytes or as a list of numbers.
    pub fn bytes(&self) -> R<Vec<u8>> {
        self.items()?.iter().map(|x| x.int().map(|n| n as u8)).collect()
    }
}
