    // ----- seeking: contracts ASSUMED -----
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    pub open spec fn seek_target(p: SeekFrom, pos: nat, len: nat) -> int {
        match p { SeekFrom::Start(n) => n as int, SeekFrom::End(d) => len + d, SeekFrom::Current(d) => pos + d }
    }
    pub trait Seek: Sized {
        spec fn contents(&self) -> Seq<u8>;
        spec fn pos(&self) -> nat;
        spec fn steady(&self) -> bool;

        fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>)
            ensures
                final(self).steady() == old(self).steady(), final(self).contents() == old(self).contents(),
                r matches Ok(n) ==> n == final(self).pos() && n == seek_target(p, old(self).pos(), old(self).contents().len()),
                old(self).steady() && 0 <= seek_target(p, old(self).pos(), old(self).contents().len()) <= 0x7fff_ffff_ffff_ffff ==> r is Ok;

        fn stream_position(&mut self) -> (r: Result<u64>)
            ensures
                final(self).steady() == old(self).steady(), final(self).contents() == old(self).contents(), final(self).pos() == old(self).pos(),
                r matches Ok(n) ==> n == old(self).pos(),
                old(self).steady() ==> r is Ok;
    }

    // io::Cursor over a vector
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Cursor<T> { _p: core::marker::PhantomData<T> }
    impl Cursor<Vec<u8>> {
        #[verifier::external_body]
        pub fn new(v: Vec<u8>) -> (r: Self) ensures r.contents() == v@, r.pos() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.contents() { unimplemented!() }
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.contents() { unimplemented!() }
        #[verifier::external_body]
        pub fn position(&self) -> (r: u64) ensures r == self.pos() { unimplemented!() }
        pub uninterp spec fn cur_base(&self) -> (Seq<u8>, nat);
        pub uninterp spec fn cur_written(&self) -> Seq<u8>;
        pub uninterp spec fn cur_contents(&self) -> Seq<u8>;
        pub uninterp spec fn cur_pos(&self) -> nat;
    }
    impl Seek for Cursor<Vec<u8>> {
        open spec fn contents(&self) -> Seq<u8> { self.cur_contents() }
        open spec fn pos(&self) -> nat { self.cur_pos() }
        open spec fn steady(&self) -> bool { true }
        #[verifier::external_body]
        fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
        #[verifier::external_body]
        fn stream_position(&mut self) -> (r: Result<u64>) { unimplemented!() }
    }
    impl Write for Cursor<Vec<u8>> {
        type Tok = ();
        #[verifier::prophetic]
        open spec fn tok(&self) -> () { () }
        open spec fn base(&self) -> (Seq<u8>, nat) { self.cur_base() }
        open spec fn written(&self) -> Seq<u8> { self.cur_written() }
        open spec fn reliable(&self) -> bool { true }
        open spec fn wf(&self) -> bool { true }
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body]
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
    }
    impl Read for Cursor<Vec<u8>> {
        open spec fn src(&self) -> Seq<u8> { self.cur_contents() }
        open spec fn rest(&self) -> Seq<u8> { from_at(self.cur_contents(), self.cur_pos() as int) }
        open spec fn reliable(&self) -> bool { true }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    }
    pub open spec fn from_at(c: Seq<u8>, p: int) -> Seq<u8> { if 0 <= p <= c.len() { c.skip(p) } else { Seq::<u8>::empty() } }

    // a stream that can be written and repositioned: what it holds, in terms of what was written since the last seek
    pub broadcast axiom fn axiom_ws<O: Write + Seek>(o: O)
        ensures
            #![trigger o.contents()]
            #![trigger o.written()]
            #![trigger o.steady()]
            o.contents() == splice(o.base().0, o.base().1, o.written()), o.pos() == o.base().1 + o.written().len(), o.steady() == o.reliable(), o.wf();
    // a stream that can be read and repositioned
    pub broadcast axiom fn axiom_rs<I: Read + Seek>(i: I)
        ensures
            #![trigger i.contents()]
            #![trigger i.rest()]
            #![trigger i.steady()]
            i.src() == i.contents(), i.rest() == from_at(i.contents(), i.pos() as int), i.steady() == i.reliable();
    // no stream reaches 2^63 bytes
    pub broadcast axiom fn axiom_small<O: Write>(o: O)
        ensures #![trigger o.written()] o.written().len() + o.base().1 <= 0x7fff_ffff_ffff_ffff;
