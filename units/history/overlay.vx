//@header
//@include ../common/sx.rs
verus! {
use sx::*;
broadcast use {vstd::utf8::group_utf8_lib, sx::ax_rb_range};
pub mod io {
    #[allow(unused_imports)] use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { NotFound, PermissionDenied, AlreadyExists, InvalidData, Interrupted, UnexpectedEof, Other }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
    }
    impl PartialEq for ErrorKind {
        #[verifier::external_body]
        fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() }
    }
    pub struct Error { pub k: ErrorKind }
    impl Error {
        #[verifier::external_body]
        pub fn new(k: ErrorKind, s: &str) -> (r: Error) ensures r.k == k { unimplemented!() }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize {
    pub open spec fn wf(&self) -> bool { self.v > 0 }
    pub fn new(v: usize) -> (r: Option<NonZeroUsize>) ensures r == (if v == 0 { None } else { Some(NonZeroUsize { v }) }) { if v == 0 { None } else { Some(NonZeroUsize { v }) } }
    #[verifier::external_body]
    pub fn get(&self) -> (r: usize) ensures r == self.v, r > 0 { unimplemented!() }
}
impl Clone for NonZeroUsize { fn clone(&self) -> (r: NonZeroUsize) ensures r == *self { NonZeroUsize { v: self.v } } }
impl Copy for NonZeroUsize {}
// -- texts --
pub open spec fn tv(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
// -- the lines of a text file --
/// the part after the last line break
pub open spec fn rest(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 || t.last() == '\n' { Seq::empty() } else { rest(t.drop_last()).push(t.last()) } }
/// the parts ended by a line break
pub open spec fn full(t: Seq<char>) -> Seq<Seq<char>> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { let p = full(t.drop_last()); if t.last() == '\n' { p.push(rest(t.drop_last())) } else { p } }
}
/// what BufRead::lines gives
pub open spec fn pieces(t: Seq<char>) -> Seq<Seq<char>> { if rest(t).len() > 0 { full(t).push(rest(t)) } else { full(t) } }
pub open spec fn strip(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == '\r' { strip(s.drop_last()) } else { s } }
pub open spec fn unbom(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '\u{FEFF}' { s.subrange(1, s.len() as int) } else { s } }
/// a line as it is taken into the history
pub open spec fn fix(i: int, s: Seq<char>) -> Seq<char> { strip(if i == 0 { unbom(s) } else { s }) }
/// the lines of a history read from a text
pub open spec fn rdt(t: Seq<char>) -> Seq<Seq<char>> { Seq::new(pieces(t).len(), |i: int| fix(i, pieces(t)[i])) }
/// (what is read from bytes which are no text does not matter: reading fails)
pub open spec fn rd(b: Seq<u8>) -> Seq<Seq<char>> { if vstd::utf8::valid_utf8(b) { rdt(vstd::utf8::decode_utf8(b)) } else { seq![Seq::empty()] } }
/// the text a history is written as
pub open spec fn enc(l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else { enc(l.drop_last()) + l.last() + seq!['\n'] } }
/// a line the editor can produce
pub open spec fn good(i: int, s: Seq<char>) -> bool { (forall|k: int| 0 <= k < s.len() ==> s[k] != '\n') && (s.len() > 0 ==> s.last() != '\r') && (i == 0 && s.len() > 0 ==> s[0] != '\u{FEFF}') }
pub proof fn lemma_nonl(g: Seq<char>, x: Seq<char>)
    requires forall|k: int| 0 <= k < x.len() ==> x[k] != '\n'
    ensures full(g + x) == full(g), rest(g + x) == rest(g) + x
    decreases x.len()
{
    if x.len() == 0 { assert(g + x =~= g); assert(rest(g) + x =~= rest(g)); } else {
        lemma_nonl(g, x.drop_last());
        assert((g + x).drop_last() =~= g + x.drop_last());
        assert((g + x).last() == x.last());
        assert((rest(g) + x.drop_last()).push(x.last()) =~= rest(g) + x);
    }
}
pub proof fn lemma_enc(l: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < l.len() ==> good(i, #[trigger] l[i])
    ensures full(enc(l)) =~= l, rest(enc(l)).len() == 0
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies good(i, #[trigger] p[i]) by { assert(p[i] == l[i]); };
        lemma_enc(p);
        assert(good(l.len() - 1, l[l.len() - 1]));
        lemma_nonl(enc(p), l.last());
        assert(enc(l).drop_last() =~= enc(p) + l.last());
        assert(rest(enc(p)) + l.last() =~= l.last());
        assert(p.push(l.last()) =~= l);
    }
}
pub proof fn lemma_strip1(s: Seq<char>)
    ensures strip(strip1(s)) == strip(s), unbom(strip1(s)) == strip1(unbom(s)) || strip1(s).len() == 0 && strip(unbom(s)).len() == 0 && strip(unbom(strip1(s))).len() == 0
{ 
    if s.len() > 0 && s[0] == '\u{FEFF}' && s.len() > 1 { assert(s.subrange(1, s.len() as int).drop_last() =~= s.drop_last().subrange(1, s.len() - 1)); }
    if s.len() == 1 { reveal_with_fuel(strip, 2); assert(unbom(s).len() <= 1); }
}
/// a history written and read back
pub proof fn lemma_roundtrip(l: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < l.len() ==> good(i, #[trigger] l[i])
    ensures rd(by(enc(l))) =~= l //# C12
{
    broadcast use vstd::utf8::group_utf8_lib;
    lemma_enc(l);
    vstd::utf8::encode_utf8_valid_utf8(enc(l));
    assert forall|i: int| 0 <= i < l.len() implies fix(i, l[i]) == l[i] by { assert(good(i, l[i])); };
}
/// a file that is not empty has lines
pub proof fn lemma_lines(b: Seq<u8>)
    requires b.len() > 0
    ensures rd(b).len() > 0
{
    broadcast use vstd::utf8::group_utf8_lib;
    if vstd::utf8::valid_utf8(b) {
        let t = vstd::utf8::decode_utf8(b);
        assert(by(t) == b);
        if t.len() == 0 { assert(by(t).len() == 0) by { lemma_by_empty(t); } }
        if t.last() == '\n' {} else { assert(rest(t).len() > 0); }
    }
}
// -- the file system --
pub struct Id { pub d: int, pub n: Seq<char> }
pub type Files = Map<Id, Seq<u8>>;
/// what loading a history of which the file is `h`, and its backup `b`, gives
pub open spec fn load(f: Files, h: Id, b: Id) -> Seq<Seq<char>> {
    if f.dom().contains(h) && rd(f[h]).len() > 0 { rd(f[h]) } else if f.dom().contains(b) { rd(f[b]) } else { Seq::empty() }
}
/// something that is there could not be read
pub uninterp spec fn io_failed() -> bool;
pub struct VxGuard { pub h: Id, pub b: Id, pub old: Seq<Seq<char>>, pub new: Seq<Seq<char>> }
/// The file system. `guard`: a history that, whatever happens and whenever it stops, must be loaded either as the old
/// or as the new one
pub struct VxFs { pub files: Ghost<Files>, pub guard: Ghost<Option<VxGuard>> }
pub struct VxName { pub s: Ghost<Seq<char>> }
pub struct VxPath { pub dir: Ghost<int>, pub name: Ghost<Option<Seq<char>>> }
impl VxPath {
    pub open spec fn id(&self) -> Id { Id { d: self.dir@, n: self.name@->0 } }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &VxPath) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<VxName>) ensures (r is Some) == (self.name@ is Some), r is Some ==> r->0.s@ == self.name@->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn set_file_name(&mut self, n: VxName) ensures final(self).dir == old(self).dir, final(self).name@ == Some(n.s@) { unimplemented!() }
}
impl Clone for VxPath { #[verifier::external_body] fn clone(&self) -> (r: VxPath) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_pathbuf(p: &VxPath) -> (r: VxPath) ensures r == *p { unimplemented!() }
impl VxName {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: VxName) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: &str) ensures final(self).s@ == old(self).s@ + s@ { unimplemented!() }
}
pub struct VxMeta { pub n: Ghost<nat> }
impl VxMeta { #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r as nat == self.n@ { unimplemented!() } }
/// an open file, and a buffered one: what has been written to it, on disk or not
pub struct VxFile { pub id: Ghost<Id> }
pub struct VxBuf { pub id: Ghost<Id>, pub all: Ghost<Seq<u8>> }
impl VxBuf { pub fn new(f: VxFile) -> (r: VxBuf) ensures r.id == f.id, r.all@ == Seq::<u8>::empty() { VxBuf { id: f.id, all: Ghost(Seq::empty()) } } }
pub struct VxLoad { pub b: Ghost<Seq<u8>> }
pub struct VxReader { pub b: Ghost<Seq<u8>> }
impl VxReader { pub fn new(f: VxLoad) -> (r: VxReader) ensures r.b == f.b { VxReader { b: f.b } }
    pub fn lines(self) -> (r: VxLines) ensures r.b == self.b, r.n@ == 0, !r.bad@ { VxLines { b: self.b, n: Ghost(0), bad: Ghost(false), k: Ghost(self.b@.len()) } } }
pub struct VxLines { pub b: Ghost<Seq<u8>>, pub n: Ghost<nat>, pub bad: Ghost<bool>, pub k: Ghost<nat> }
pub open spec fn strip1(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
impl VxLines {
    pub open spec fn pc(&self) -> Seq<Seq<char>> { pieces(vstd::utf8::decode_utf8(self.b@)) }
    pub open spec fn left(&self) -> int { self.pc().len() - self.n@ }
    /// the next line: without its line break, of which a carriage return before it is a part; bytes that are no
    /// text are an error, at the latest when the end comes
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<io::Result<String>>)
        requires !old(self).bad@
        ensures final(self).b == old(self).b,
            r matches Some(Ok(s)) ==> old(self).k@ > final(self).k@ && final(self).n@ == old(self).n@ + 1 && final(self).bad == old(self).bad && (vstd::utf8::valid_utf8(old(self).b@) ==> old(self).n@ < old(self).pc().len() && (s@ == old(self).pc()[old(self).n@ as int] || old(self).n@ < full(vstd::utf8::decode_utf8(old(self).b@)).len() && s@ == strip1(old(self).pc()[old(self).n@ as int]))),
            r matches Some(Err(e)) ==> final(self).bad@ && io_failed() && e.k !is NotFound,
            r is None ==> final(self).n == old(self).n && final(self).bad == old(self).bad && vstd::utf8::valid_utf8(old(self).b@) && old(self).n@ == old(self).pc().len(),
    { unimplemented!() }
}
impl VxFs {
    pub open spec fn safe(&self) -> bool { self.guard@ matches Some(g) ==> load(self.files@, g.h, g.b) == g.old || load(self.files@, g.h, g.b) == g.new }
    /// the file may be written to (which takes more than one step)
    pub open spec fn writable(&self, i: Id) -> bool { self.guard@ matches Some(g) ==> i != g.h && i != g.b }
    /// at most the content of `i` differs
    pub open spec fn but(&self, o: &VxFs, i: Id) -> bool {
        &&& self.guard == o.guard
        &&& forall|j: Id| j != i ==> #[trigger] self.files@.dom().contains(j) == o.files@.dom().contains(j)
        &&& forall|j: Id| j != i ==> #[trigger] self.files@[j] == o.files@[j]
    }
    #[verifier::external_body]
    pub fn open(&mut self, p: &VxPath) -> (r: io::Result<VxLoad>)
        ensures final(self).files == old(self).files, final(self).guard == old(self).guard,
            r is Ok ==> p.name@ is Some && old(self).files@.dom().contains(p.id()) && r->Ok_0.b@ == old(self).files@[p.id()],
            r is Err ==> (if r->Err_0.k is NotFound { !old(self).files@.dom().contains(p.id()) } else { io_failed() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create(&mut self, p: &VxPath) -> (r: io::Result<VxFile>)
        requires old(self).safe(), p.name@ is Some, old(self).writable(p.id()), //# C13
        ensures final(self).but(old(self), p.id()),
            r is Ok ==> r->Ok_0.id@ == p.id() && final(self).files@.dom().contains(p.id()) && final(self).files@[p.id()].len() == 0,
            r is Err ==> final(self).files == old(self).files,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, f: &mut VxBuf, b: &[u8]) -> (r: io::Result<()>)
        requires old(self).safe(), old(self).writable(old(f).id@), //# C13
        ensures final(self).but(old(self), old(f).id@), final(f).id == old(f).id, final(f).all@ == old(f).all@ + b@, final(self).files@.dom() == old(self).files@.dom(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, f: &mut VxBuf) -> (r: io::Result<()>)
        requires old(self).safe(), old(self).writable(old(f).id@), //# C13
        ensures final(self).but(old(self), old(f).id@), *final(f) == *old(f), final(self).files@.dom() == old(self).files@.dom(),
            r is Ok && old(self).files@.dom().contains(old(f).id@) ==> final(self).files@[old(f).id@] == old(f).all@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rename(&mut self, a: &VxPath, b: &VxPath) -> (r: io::Result<()>)
        requires old(self).safe(), //# C13
        ensures final(self).guard == old(self).guard,
            r is Ok ==> old(self).files@.dom().contains(a.id()) && final(self).files@ == old(self).files@.remove(a.id()).insert(b.id(), old(self).files@[a.id()]),
            r is Err ==> final(self).files == old(self).files,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(&mut self, a: &VxPath) -> (r: io::Result<()>)
        requires old(self).safe(), //# C13
        ensures final(self).guard == old(self).guard,
            r is Ok ==> final(self).files@ == old(self).files@.remove(a.id()),
            r is Err ==> final(self).files == old(self).files,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, a: &VxPath) -> (r: io::Result<VxMeta>)
        ensures r is Ok ==> self.files@.dom().contains(a.id()) && r->Ok_0.n@ == self.files@[a.id()].len(),
    { unimplemented!() }
}
pub proof fn lemma_safe_but(f: &VxFs, o: &VxFs, i: Id)
    requires o.safe(), o.writable(i), f.but(o, i)
    ensures f.safe(), f.writable(i)
{ }
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (o: T)
    where E: std::marker::Destruct, T: std::marker::Destruct
    ensures o == (match r { Ok(x) => x, Err(_) => d });
#[verifier::external_body]
pub fn vx_ascii(s: &str) -> (r: &[u8]) ensures r@ == by(s@) { s.as_bytes() }
pub trait VxStr { spec fn st(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.st().len() > 0 && self.st()[0] == c) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with(&self, c: char) -> (r: bool) ensures r == (self.st().len() > 0 && self.st().last() == c) { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == by(self.st()) { unimplemented!() }
}
impl VxStr for String { open spec fn st(&self) -> Seq<char> { self@ } }
// -- autosave handlers --
#[verifier::external_body]
pub struct VxHandler { _x: u8 }
/// the runs of autosave handlers: which, with which lines, and whether it succeeded
pub struct VxRuns { pub runs: Ghost<Seq<(VxHandler, Seq<Seq<char>>, bool)>> }
#[verifier::external_body]
pub fn vx_run(h: &VxHandler, w: &mut VxRuns, s: &History) -> (r: io::Result<()>)
    ensures final(w).runs@ == old(w).runs@.push((*h, tv(s.lines@), r is Ok))
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_handler() -> VxHandler { unimplemented!() }
// -- adding lines --
pub open spec fn keep(s: Seq<Seq<char>>, x: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { (if s[0] == x { Seq::empty() } else { seq![s[0]] }) + keep(s.subrange(1, s.len() as int), x) }
}
pub open spec fn newest(s: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> { if s.len() > n { s.subrange(s.len() - n, s.len() as int) } else { s } }
impl History {
    pub open spec fn l(&self) -> Seq<Seq<char>> { tv(self.lines@) }
    pub open spec fn wf(&self) -> bool { self.lines_since_last_autosave < usize::MAX && (self.limit matches Some(n) ==> n.wf()) && (self.autosave_interval matches Some(n) ==> n.wf()) }
    /// the lines with one added
    pub open spec fn added(&self, x: Seq<char>) -> Seq<Seq<char>> {
        let a = (if self.strip_duplicates { keep(self.l(), x) } else { self.l() }).push(x);
        match self.limit { Some(n) => newest(a, n.v as int), None => a }
    }
    pub open spec fn due(&self) -> bool { self.autosave_interval matches Some(n) && self.lines_since_last_autosave + 1 >= n.v }
    pub open spec fn settings(&self, o: &History) -> bool { self.limit == o.limit && self.strip_duplicates == o.strip_duplicates && self.autosave_handler == o.autosave_handler && self.autosave_interval == o.autosave_interval }
}
pub trait VxSplice { spec fn sp(&self) -> Seq<String>;
    #[verifier::external_body]
    fn vx_splice<R: std::ops::RangeBounds<usize>>(&mut self, r: R, x: Option<String>)
        requires ({ let n = old(self).sp().len() as int; 0 <= rb_lo(&r, n) <= rb_hi(&r, n) <= n })
        ensures ({ let n = old(self).sp().len() as int; final(self).sp() == old(self).sp().subrange(0, rb_lo(&r, n)) + (match x { Some(y) => seq![y], None => Seq::empty() }) + old(self).sp().subrange(rb_hi(&r, n), n) })
    { unimplemented!() }
}
impl VxSplice for Vec<String> { open spec fn sp(&self) -> Seq<String> { self@ } }
pub struct VxDown { pub lo: usize, pub hi: usize }
impl VxDown { pub fn next(&mut self) -> (r: Option<usize>)
    ensures final(self).lo == old(self).lo, old(self).lo < old(self).hi ==> r == Some((old(self).hi - 1) as usize) && final(self).hi == old(self).hi - 1, old(self).lo >= old(self).hi ==> r is None && *final(self) == *old(self)
    { if self.lo < self.hi { self.hi = self.hi - 1; Some(self.hi) } else { None } } }
pub trait VxRangeRev { fn vx_rev(self) -> (r: VxDown) ensures r == self.rr(); spec fn rr(self) -> VxDown; }
impl VxRangeRev for std::ops::Range<usize> { open spec fn rr(self) -> VxDown { VxDown { lo: self.start, hi: self.end } } fn vx_rev(self) -> (r: VxDown) { VxDown { lo: self.start, hi: self.end } } }
//@method iter => vx_it
//@method rev => vx_rev
//@method splice => vx_splice
//@method remove => vx_remove
//@method starts_with => vx_starts_with
//@method ends_with => vx_ends_with
//@method as_bytes => vx_as_bytes
//@method write_all => fs_write_all(+fs)
//@method flush => fs_flush(+fs)
//@method read_history_from => vx_read_history_from(+fs)
//@method write_history_to => vx_write_history_to(+fs)
//@path b"" => vx_ascii
//@path File::open => fs.open
//@path File::create => fs.create
//@path BufWriter::new => VxBuf::new
//@path BufReader::new => VxReader::new
//@path rename => fs.rename
//@path metadata => fs.metadata
//@path remove_file => fs.remove_file
//@path PathBuf::from => vx_pathbuf
//@path Box::new => vx_handler()
//@path (autosave_handler) => vx_run(+autosave_handler, w)
//@typemap PathBuf => VxPath
//@typemap Option<Box<AutosaveHandlerFn>> => Option<VxHandler>
//@raw
verus! {
pub trait VxRemove: Sized { type Out; spec fn rm_pre(&self, i: int) -> bool; spec fn rm_post(&self, f: &Self, i: int, r: Self::Out) -> bool;
    fn vx_remove(&mut self, i: usize) -> (r: Self::Out) requires old(self).rm_pre(i as int) ensures old(self).rm_post(final(self), i as int, r); }
impl VxRemove for Vec<String> { type Out = String;
    open spec fn rm_pre(&self, i: int) -> bool { i < self@.len() }
    open spec fn rm_post(&self, f: &Self, i: int, r: String) -> bool { r == self@[i] && f@ == self@.remove(i) }
    fn vx_remove(&mut self, i: usize) -> (r: String) { self.remove(i) } }
impl VxRemove for String { type Out = char;
    open spec fn rm_pre(&self, i: int) -> bool { i == 0 && self@.len() > 0 }
    open spec fn rm_post(&self, f: &Self, i: int, r: char) -> bool { f@ == self@.subrange(1, self@.len() as int) }
    #[verifier::external_body]
    fn vx_remove(&mut self, i: usize) -> (r: char) { self.remove(i) } }
impl VxBuf {
    fn fs_write_all(&mut self, fs: &mut VxFs, b: &[u8]) -> (r: io::Result<()>)
        requires old(fs).safe(), old(fs).writable(old(self).id@),
        ensures final(fs).but(old(fs), old(self).id@), final(self).id == old(self).id, final(self).all@ == old(self).all@ + b@, final(fs).files@.dom() == old(fs).files@.dom(),
    { fs.write_all(self, b) }
    fn fs_flush(&mut self, fs: &mut VxFs) -> (r: io::Result<()>)
        requires old(fs).safe(), old(fs).writable(old(self).id@),
        ensures final(fs).but(old(fs), old(self).id@), *final(self) == *old(self), final(fs).files@.dom() == old(fs).files@.dom(),
            r is Ok && old(fs).files@.dom().contains(old(self).id@) ==> final(fs).files@[old(self).id@] == old(self).all@,
    { fs.flush(self) }
}
}
//@file src/history.rs
//@type History
//@impl History
//@fn add_line props=C11
//@sig (&mut self, w: &mut VxRuns, line: String) -> (res: io::Result<()>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).settings(old(self)),
        final(self).l() == old(self).added(line@), //# C11
        final(w).runs@ == (if old(self).due() && old(self).autosave_handler is Some { old(w).runs@.push((old(self).autosave_handler->0, old(self).added(line@), res is Ok)) } else { old(w).runs@ }), //# C11
        !(old(self).due() && old(self).autosave_handler is Some) ==> res is Ok, //# C11
        final(self).lines_since_last_autosave == (if old(self).autosave_interval is None { old(self).lines_since_last_autosave as int } else if old(self).due() { 0 } else { old(self).lines_since_last_autosave + 1 }), //# C11
//@hint start
    let ghost s0 = self.l(); let ghost li = self.lines@; let ghost n0 = self.lines@.len() as int;
    proof { assert(s0.subrange(0, n0) =~= s0); assert(keep(s0.subrange(n0, n0), line@) =~= Seq::empty()); }
//@loop 0
    invariant vx_it0.lo == 0, vx_it0.hi <= self.lines@.len(), vx_it0.hi <= n0, n0 == s0.len(), self.settings(old(self)), self.lines_since_last_autosave == old(self).lines_since_last_autosave,
        self.l() =~= s0.subrange(0, vx_it0.hi as int) + keep(s0.subrange(vx_it0.hi as int, n0), line@), //# C11
    ensures vx_it0.hi == 0
    decreases vx_it0.hi
//@hint loop 0 start
    proof { if vx_it0.hi > 0 {
        let x = vx_it0.hi - 1;
        let a = s0.subrange(x as int, n0); 
        assert(a[0] == s0[x as int]);
        assert(a.subrange(1, a.len() as int) =~= s0.subrange(x + 1, n0));
        assert(self.l()[x as int] == s0[x as int]);
        assert(s0.subrange(0, x + 1) =~= s0.subrange(0, x as int).push(s0[x as int]));
        assert(self.lines@.remove(x as int) =~= self.lines@.subrange(0, x as int) + self.lines@.subrange(x + 1, self.lines@.len() as int));
        assert(tv(self.lines@.remove(x as int)) =~= self.l().subrange(0, x as int) + self.l().subrange(x + 1, self.l().len() as int));
    } }
//@hint loop 0 after
    proof { assert(s0.subrange(0, 0) =~= Seq::empty()); assert(s0.subrange(0, n0) =~= s0); assert(self.l() =~= keep(s0, line@)); }
//@hint call push 0 before
    let ghost a0 = if old(self).strip_duplicates { keep(s0, line@) } else { s0 };
    proof {
        assert(self.l() =~= (match self.limit { Some(n) => if a0.len() > n.v - 1 { a0.subrange(a0.len() - (n.v - 1), a0.len() as int) } else { a0 }, None => a0 }));
        assert(self.l().push(line@) =~= old(self).added(line@));
    }
//@hint call push 0 after
    proof { assert(self.l() =~= old(self).added(line@)); }
//@fn new props=C11,C13
    ensures res.wf(), res.l().len() == 0, //# C11,C13
//@fn set_limit props=C11
    requires old(self).wf(), limit matches Some(n) ==> n.wf(),
    ensures (*res).wf(), (*res).l() == old(self).l(), (*res).limit == limit, (*res).strip_duplicates == old(self).strip_duplicates, (*res).autosave_handler == old(self).autosave_handler,
        (*res).autosave_interval == old(self).autosave_interval, (*res).lines_since_last_autosave == old(self).lines_since_last_autosave,
        *final(res) == *final(self), //# C11
//@fn set_strip_duplicates props=C11
    requires old(self).wf(),
    ensures (*res).wf(), (*res).l() == old(self).l(), (*res).limit == old(self).limit, (*res).strip_duplicates == strip_duplicates, (*res).autosave_handler == old(self).autosave_handler,
        (*res).autosave_interval == old(self).autosave_interval, (*res).lines_since_last_autosave == old(self).lines_since_last_autosave,
        *final(res) == *final(self), //# C11
//@fn set_autosave_handler props=C11
    requires old(self).wf(),
    ensures (*res).wf(), (*res).l() == old(self).l(), (*res).limit == old(self).limit, (*res).strip_duplicates == old(self).strip_duplicates, (*res).autosave_handler == autosave_handler,
        (*res).autosave_interval == old(self).autosave_interval, (*res).lines_since_last_autosave == old(self).lines_since_last_autosave,
        *final(res) == *final(self), //# C11
//@fn set_autosave_interval props=C11
    requires old(self).wf(), autosave_interval matches Some(n) ==> n.wf(),
    ensures (*res).wf(), (*res).l() == old(self).l(), (*res).limit == old(self).limit, (*res).strip_duplicates == old(self).strip_duplicates, (*res).autosave_handler == old(self).autosave_handler,
        (*res).autosave_interval == autosave_interval, (*res).lines_since_last_autosave == (if autosave_interval is None { 0 } else { old(self).lines_since_last_autosave }),
        *final(res) == *final(self), //# C11
//@fn get_lines props=C11,C12
    ensures tv(res@) == self.l(), //# C11,C12
//@fn write_history_to props=C12,C13 as=vx_write_history_to
//@sig (&self, fs: &mut VxFs, path: &VxPath) -> (res: io::Result<()>)
    requires old(fs).safe(), path.name@ is Some, old(fs).writable(path.id()),
    ensures final(fs).but(old(fs), path.id()),
        res is Ok ==> final(fs).files@.dom().contains(path.id()) && final(fs).files@[path.id()] == by(enc(self.l())), //# C12
        final(fs).safe(), //# C13
//@hint start
    let ghost d = path.id();
    proof { lemma_by_empty(enc(self.l().take(0))); assert(self.l().take(0) =~= Seq::empty()); }
//@loop 0
    invariant_except_break
        vx_it0.wf(), vx_it0.hi == self.lines@.len(), vx_it0.s@ == self.lines@, 
        f.all@ =~= by(enc(self.l().take(vx_it0.lo as int))), //# C12
    invariant
        d == path.id(), old(fs).safe(), old(fs).writable(d), fs.but(old(fs), d), f.id@ == d, fs.files@.dom().contains(d),
    ensures f.all@ == by(enc(self.l())), //# C12
    decreases vx_it0.hi - vx_it0.lo
//@hint loop 0 start
    proof { lemma_safe_but(fs, old(fs), d);
        if vx_it0.lo < vx_it0.hi {
        let k = vx_it0.lo as int; let t = self.l().take(k); let u = self.l().take(k + 1);
        assert(u.drop_last() =~= t); assert(u.last() == self.lines@[k]@);
        vstd::utf8::encode_utf8_concat(enc(t), u.last()); vstd::utf8::encode_utf8_concat(enc(t) + u.last(), seq!['\n']);
        } else { assert(self.l().take(vx_it0.lo as int) =~= self.l()); }
        assert("\x0A"@ =~= seq!['\n']);
    }
//@hint loop 0 after
    proof { lemma_safe_but(fs, old(fs), d); }
//@fn read_history_from props=C12,C13 as=vx_read_history_from
//@sig (&mut self, fs: &mut VxFs, path: &VxPath) -> (res: io::Result<usize>)
    ensures final(fs).files == old(fs).files, final(fs).guard == old(fs).guard, final(self).settings(old(self)), final(self).lines_since_last_autosave == old(self).lines_since_last_autosave,
        res is Ok ==> path.name@ is Some && old(fs).files@.dom().contains(path.id()) && final(self).l() == rd(old(fs).files@[path.id()]) && res->Ok_0 == final(self).l().len(), //# C12,C13
        res is Err ==> final(self).lines == old(self).lines, //# C12
        res is Err ==> (if res->Err_0.k is NotFound { !old(fs).files@.dom().contains(path.id()) } else { io_failed() }), //# C13
//@hint start
    let ghost b = fs.files@[path.id()];
//@loop 0
    invariant vx_it0.b@ == b, !vx_it0.bad@, vx_it0.n@ == new_history@.len(), self.lines == old(self).lines, self.settings(old(self)), self.lines_since_last_autosave == old(self).lines_since_last_autosave, fs.files == old(fs).files, fs.guard == old(fs).guard,
        vstd::utf8::valid_utf8(b) ==> new_history@.len() <= pieces(vstd::utf8::decode_utf8(b)).len() && forall|i: int| 0 <= i < new_history@.len() ==> (#[trigger] tv(new_history@)[i]) == fix(i, pieces(vstd::utf8::decode_utf8(b))[i]), //# C12,C13
    ensures tv(new_history@) =~= rd(b), //# C12,C13
    decreases vx_it0.k@
//@hint loop 1 before
    let ghost l0 = l@;
    proof { lemma_strip1(l0); if vstd::utf8::valid_utf8(b) { let p = pieces(vstd::utf8::decode_utf8(b))[new_history@.len() as int]; lemma_strip1(p); lemma_strip1(unbom(p)); 
        assert(strip(l0) == fix(new_history@.len() as int, p));
    } }
//@loop 1
    invariant strip(l@) == strip(l0), //# C12
    decreases l@.len()
//@hint call push 0 before
    proof { assert(strip(l@) == l@); assert forall|x: String| #[trigger] tv(new_history@.push(x)) == tv(new_history@).push(x@) by { assert(tv(new_history@.push(x)) =~= tv(new_history@).push(x@)); }; }
//@fn from_file props=C13 as=autosave
//@part closure ~write_history_to
//@sig (fs: &mut VxFs, history: &History, build_path: VxPath, history_path: VxPath, backup_path: VxPath) -> (res: io::Result<()>)
    requires
        old(fs).guard@ matches Some(g) && g.h == history_path.id() && g.b == backup_path.id() && g.new == rd(by(enc(history.l()))) && g.old == load(old(fs).files@, g.h, g.b),
        history.l().len() > 0, history_path.name@ is Some, backup_path.name@ is Some, build_path.name@ is Some,
        history_path.id() != backup_path.id(), build_path.id() != history_path.id(), build_path.id() != backup_path.id(),
    ensures final(fs).safe(), //# C13
        res is Ok ==> load(final(fs).files@, history_path.id(), backup_path.id()) == rd(by(enc(history.l()))), //# C13
//@closure 0 (VxMeta) -> (r: bool)
    ensures r == ($0.n@ > 0)
//@fn from_file props=C12,C13
//@sig (fs: &mut VxFs, path: VxPath) -> (res: io::Result<History>)
    ensures final(fs).files == old(fs).files,
        res is Ok ==> path.name@ is Some && res->Ok_0.l() == load(old(fs).files@, path.id(), Id { d: path.dir@, n: path.name@->0 + seq!['~'] }), //# C13
        res is Err ==> path.name@ is None || io_failed(), //# C13
//@hint start
    proof { assert("~"@ =~= seq!['~']); }
//@hint let handler 0 before
    proof {
        let n = history_path.name@->0;
        assert(history_path.id() == path.id());
        assert(backup_path.id() == Id { d: path.dir@, n: n + seq!['~'] });
        assert(backup_path.name@ is Some && build_path.name@ is Some);
        assert(backup_path.id().n.len() == n.len() + 1);
        assert(build_path.id().n.len() == n.len() + 1 && build_path.id().n.last() != '~');
        assert(build_path.id() != history_path.id() && backup_path.id() != history_path.id() && build_path.id() != backup_path.id());
    }
//@endimpl
//@footer
}
fn main() {}
