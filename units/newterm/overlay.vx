//@header
//@include ../common/sx.rs
verus! {
use sx::*;
pub struct DummyError {}
pub struct VxEnvErr {}
#[verifier::external_body]
pub fn vx_env(n: &str) -> (r: std::result::Result<String, VxEnvErr>) { unimplemented!() }
/// (text is looked at, not changed: whatever the answers)
#[verifier::external_body]
pub fn vx_split(s: &String, c: char) -> (r: VxSplit) { unimplemented!() }
pub struct VxSplit { pub x: u8 }
impl VxSplit {
    #[verifier::external_body]
    pub fn next<'a>(&mut self) -> (r: Option<&'a str>) { unimplemented!() }
}
pub trait VxText { fn vx_split(&self, c: char) -> VxSplit; fn vx_has(&self, p: &str) -> bool; }
impl VxText for String {
    #[verifier::external_body] fn vx_split(&self, c: char) -> VxSplit { unimplemented!() }
    #[verifier::external_body] fn vx_has(&self, p: &str) -> bool { unimplemented!() }
}
impl VxText for str {
    #[verifier::external_body] fn vx_split(&self, c: char) -> VxSplit { unimplemented!() }
    #[verifier::external_body] fn vx_has(&self, p: &str) -> bool { unimplemented!() }
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (x: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == (match x { Ok(v) => v, Err(_) => d });
#[verifier::external_body]
pub fn vx_size() -> (r: std::result::Result<(u16, u16), VxEnvErr>) { unimplemented!() }
#[verifier::external_body]
pub fn vx_eprintln() { unimplemented!() }
pub struct VxSender { pub id: Ghost<int> }
impl VxSender {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VxSender) ensures r == *self { unimplemented!() }
}
/// a terminal, and whom its input threads send to
pub enum VxAny { Vt(u8, VxSender), Ct(VxSender) }
impl VxAny { pub open spec fn to(&self) -> VxSender { match *self { VxAny::Vt(_, s) => s, VxAny::Ct(s) => s } } }
pub struct Vt52 {}
pub struct Crossterminal {}
impl Vt52 {
    /// (unit attrs_vt: the colors of a VT52 are 2, 4 or 16)
    #[verifier::external_body]
    pub fn new(s: VxSender, num_colors: u8) -> (r: std::result::Result<VxAny, DummyError>)
        requires num_colors == 2 || num_colors == 4 || num_colors == 16, //# C19
        ensures r matches Ok(t) ==> t == VxAny::Vt(num_colors, s)
    { unimplemented!() }
}
impl Crossterminal {
    #[verifier::external_body]
    pub fn new(s: VxSender) -> (r: std::result::Result<VxAny, DummyError>)
        ensures r matches Ok(t) ==> t == VxAny::Ct(s)
    { unimplemented!() }
}
pub fn vx_id<T>(t: T) -> (r: T) ensures r == t { t }
//@path std::env::var => vx_env
//@path Box::new => vx_id
//@path crossterm::terminal::size => vx_size
//@method split => vx_split
//@method contains => vx_has
//@method starts_with => vx_has
//@method ends_with => vx_has
//@features wrap history completion
//@file src/term.rs
//@fn new_term props=C14,C15,C19 ret=res
//@sig (req_tx: &VxSender) -> (res: std::result::Result<VxAny, DummyError>)
    ensures res matches Ok(t) ==> t.to() == *req_tx, //# C14,C15
//@footer
}
fn main() {}
