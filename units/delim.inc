// ---- std operations the reader uses, as assumed contracts -------------------------
pub mod io {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    }
}
/// `a[..] == b[..]`
#[verifier::external_body]
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@)
{ unimplemented!() }
pub open spec fn rotated(s: Seq<u8>, n: int) -> Seq<u8> { s.skip(n) + s.take(n) }
#[verifier::external_body]
pub fn rotate_left(v: &mut Vec<u8>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@ == rotated(old(v)@, n as int)
{ unimplemented!() }
/// `to[..n].copy_from_slice(&from[..n])`
#[verifier::external_body]
pub fn copy_prefix(to: &mut [u8], from: &Vec<u8>, n: usize)
    requires n <= old(to)@.len(), n <= from@.len()
    ensures final(to)@ == from@.take(n as int) + old(to)@.skip(n as int)
{ unimplemented!() }
/// `for j in &mut v[..n] { *j = 0; }`
#[verifier::external_body]
pub fn zero_prefix(v: &mut Vec<u8>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), final(v)@.skip(n as int) == old(v)@.skip(n as int)
{ unimplemented!() }
/// the underlying read answered `r` and, if Ok, produced the bytes `s`
pub uninterp spec fn answered<F>(f: F, r: io::Result<usize>, s: Seq<u8>) -> bool;
pub open spec fn got(r: io::Result<usize>) -> nat { match r { Ok(n) => n as nat, Err(_) => 0 } }
/// `f(&mut v[at..])`: a read writes at most what it was given, and says how much
/// (what it leaves beyond that is unspecified)
#[verifier::external_body]
pub fn call_reader<F>(f: F, v: &mut Vec<u8>, at: usize) -> (r: io::Result<usize>)
    requires at <= old(v)@.len()
    ensures
        final(v)@.len() == old(v)@.len(),
        final(v)@.take(at as int) == old(v)@.take(at as int),
        at + got(r) <= old(v)@.len(),
        answered(f, r, final(v)@.subrange(at as int, at + got(r))),
{ unimplemented!() }

/// everything a writing closure has been given so far
pub uninterp spec fn written<F>(f: F) -> Seq<u8>;
/// `f(data)`: the closure accepts all of it or fails
#[verifier::external_body]
pub fn call_writer<F>(f: &mut F, data: &[u8]) -> (r: io::Result<usize>)
    ensures r is Ok ==> written(*final(f)) == written(*old(f)) + data@
{ unimplemented!() }

/// the delimiter used when none is given
pub uninterp spec fn default_delimiter() -> Seq<u8>;
#[verifier::external_body]
pub fn default_delimiter_bytes() -> (r: &'static [u8]) ensures r@ == default_delimiter(), r@.len() > 0 { unimplemented!() }
//@ presubst max_data_size, DEFAULT_DELIMITER => max_data_size, default_delimiter_bytes()
//@ presubst new_with_delimiter(DEFAULT_DELIMITER) => new_with_delimiter(default_delimiter_bytes())
//@ presubst f(data)? => call_writer(&mut f, data)?
//@ presubst f(&self.delimiter)? => call_writer(&mut f, &self.delimiter)?
//@ presubst Box<[u8]> => Vec<u8>
//@ presubst .into_boxed_slice() =>
//@ presubst self.buf.rotate_left( => rotate_left(&mut self.buf,
//@ presubst self.buf_filled += bytes_read; => self.buf_filled += *bytes_read;
//@ presubst data[..i].copy_from_slice(&self.buf[..i]); => copy_prefix(data, &self.buf, i);
//@ presubst for j in &mut self.buf[..i + delimiter_len] { *j = 0; } => zero_prefix(&mut self.buf, i + delimiter_len);
//@ presubst f(&mut self.buf[self.buf_filled..]) => call_reader(f, &mut self.buf, self.buf_filled)
//@ presubst r(&mut self.buf[self.buf_filled..]).await => call_reader(r, &mut self.buf, self.buf_filled)
//@ src src/utils/delimiter.rs

//@ keep Clone, Copy
//@ item PreReadResult
//@ keep
//@ item DelimiterReader

/// the delimiter starts at `i` of `s`
pub open spec fn delim_at(s: Seq<u8>, d: Seq<u8>, i: int) -> bool {
    0 <= i && i + d.len() <= s.len() && s.subrange(i, i + d.len()) == d
}
/// position of the first delimiter of `s`, if any
pub open spec fn is_first(s: Seq<u8>, d: Seq<u8>, i: int) -> bool {
    delim_at(s, d, i) && forall|j: int| 0 <= j < i ==> !#[trigger] delim_at(s, d, j)
}
pub open spec fn no_delim(s: Seq<u8>, d: Seq<u8>) -> bool {
    forall|j: int| !#[trigger] delim_at(s, d, j)
}
/// no delimiter starts at `i` of `s`, nor of any continuation of `s`
pub open spec fn ruled_out(s: Seq<u8>, d: Seq<u8>, i: int) -> bool {
    exists|k: int| 0 <= k < d.len() && i + k < s.len() && #[trigger] s[i + k] != d[k]
}
impl DelimiterReader {
    /// what has been read and not yet handed out
    pub open spec fn pending(&self) -> Seq<u8> { self.buf@.take(self.buf_filled as int) }
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.delimiter@.len() <= self.buf@.len()
        &&& self.buf_filled <= self.buf@.len()
        &&& self.buf_pos <= self.buf_filled
        &&& self.buf_pos > self.buf@.len() - self.delimiter@.len() ==> self.buf_filled == self.buf@.len()
        &&& self.buf_pos <= self.buf@.len() - self.delimiter@.len() + 1
        &&& forall|i: int| 0 <= i < self.buf_pos ==> #[trigger] ruled_out(self.pending(), self.delimiter@, i)
    }
    pub open spec fn max(&self) -> int { self.buf@.len() - self.delimiter@.len() }
    pub open spec fn same_shape(&self, o: &Self) -> bool {
        self.buf@.len() == o.buf@.len() && self.delimiter@ == o.delimiter@
    }
    pub open spec fn can_take(&self, n: int) -> bool { self.wf() && !self.overfull() && self.buf_filled + n <= self.buf@.len() }
    /// full without a delimiter: only then is anything dropped
    pub open spec fn overfull(&self) -> bool { self.buf_pos > self.max() }
}
/// handing out of `have`: `size` bytes went to `data`, `rest` is kept
pub open spec fn handed(have: Seq<u8>, d: Seq<u8>, size: int, data0: Seq<u8>, data: Seq<u8>, rest: Seq<u8>) -> bool {
    ||| (no_delim(have, d) && size == 0 && rest == have && data == data0)
    ||| (is_first(have, d, size) && rest == have.skip(size + d.len()) && data == have.take(size) + data0.skip(size))
}
//@ impl DelimiterReader
//@ fn new_with_delimiter
//@ ret r
    requires
        max_data_size + delimiter@.len() <= usize::MAX,
        delimiter@.len() > 0,
    ensures
        r.wf() && r.pending().len() == 0, // [C20]
        r.max() == max_data_size && r.delimiter@ == delimiter@, // [C20]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ fn find_partial_delimiter
//@ ret r
    requires
        self.delimiter@.len() <= self.buf@.len(),
    ensures
        r.1 <= self.delimiter@.len(), // [C20]
        r.1 > 0 ==> self.buf@.skip(self.buf@.len() - r.1) == self.delimiter@.take(r.1 as int), // [C20]
        forall|i: int| self.buf@.len() - self.delimiter@.len() <= i < self.buf@.len() - r.1 ==> // [C20]
            #[trigger] ruled_out(self.buf@, self.delimiter@, i), // [C20]
//@ loop 0
    invariant_except_break
        size == 0,
        forall|j: int| b_len - delimiter_len <= j < i ==> #[trigger] ruled_out(self.buf@, self.delimiter@, j),
    invariant
        b_len == self.buf@.len(),
        delimiter_len == self.delimiter@.len(),
        delimiter_len <= b_len,
    ensures
        size <= delimiter_len,
        size > 0 ==> self.buf@.skip(b_len - size) == self.delimiter@.take(size as int),
        forall|j: int| b_len - delimiter_len <= j < b_len - size ==> #[trigger] ruled_out(self.buf@, self.delimiter@, j),
//@ loop 0 end
    proof { lemma_mismatch(self.buf@, self.delimiter@, i as int); }
//@ end
//@ fn pre_read
//@ ret r
    requires old(self).wf(),
    ensures
        r.delimiter_len == old(self).delimiter@.len(), // [C20]
        final(self).wf(), // [C20]
        final(self).same_shape(old(self)), // [C20]
        !final(self).overfull(), // [C20]
        !old(self).overfull() ==> final(self).pending() == old(self).pending(), // [C20]
        old(self).overfull() ==> exists|n: int| 0 <= n <= old(self).delimiter@.len() // [C20]
            && final(self).pending() == #[trigger] old(self).pending().skip(n), // [C20]
//@ tail
    proof {
        if old(self).overfull() {
            let b0 = old(self).buf@;
            let sh = b0.len() - self.buf_filled;
            assert(self.pending() =~= old(self).pending().skip(sh));
            assert(old(self).pending() =~= b0);
            lemma_shift(b0, self.pending(), self.delimiter@, sh, self.buf_pos as int);
        }
    }
//@ end
//@ fn post_read
//@ ret r
    requires
        old(self).can_take(opt_n(bytes_read)),
        preread_result.delimiter_len == old(self).delimiter@.len(),
        old(data)@.len() >= old(self).max(),
    ensures
        final(self).wf(), // [C20]
        final(self).same_shape(old(self)), // [C20]
        handed(old(self).buf@.take(old(self).buf_filled + opt_n(bytes_read)), old(self).delimiter@, r as int, old(data)@, final(data)@, final(self).pending()), // [C20]
//@ start
    assert(self.buf.len() == self.buf@.len());
    let ghost have = self.buf@.take(self.buf_filled + opt_n(bytes_read));
    let ghost dl = self.delimiter@;
    proof {
        assert(have.take(self.buf_filled as int) =~= self.pending());
        lemma_grow(self.pending(), have, dl, self.buf_pos as int);
    }
//@ loop 0 iter it
//@ loop 0
    invariant_except_break
        self.buf_pos == old(self).buf_pos + it.index@,
        it.index@ < it.seq().len() ==> self.buf_pos == i,
        self.buf_pos <= self.buf_filled - delimiter_len + 1 || self.buf_pos == old(self).buf_pos,
        0 < delimiter_len <= self.buf_filled <= self.buf@.len(),
        self.buf@.take(self.buf_filled as int) == have,
        self.buf_pos <= self.buf_filled,
        self.buf_filled == have.len(),
        size == 0,
        self.buf_pos > self.buf_filled - delimiter_len ==> no_delim(have, dl),
        old(self).buf_pos <= old(self).max(), old(self).wf(), self.buf_filled >= old(self).buf_filled,
        it.seq().len() == if old(self).buf_pos <= self.buf_filled - delimiter_len { self.buf_filled - delimiter_len + 1 - old(self).buf_pos } else { 0 },
        data@ == old(data)@,
        forall|j: int| 0 <= j < self.buf_pos ==> #[trigger] ruled_out(have, dl, j),
    invariant
        self.same_shape(old(self)),
        dl == self.delimiter@,
        dl == old(self).delimiter@,
        have == old(self).buf@.take(old(self).buf_filled + opt_n(bytes_read)),
        delimiter_len == dl.len(),
        data@.len() >= self.max(),
    ensures
        self.wf(),
        self.same_shape(old(self)),
        handed(have, dl, size as int, old(data)@, data@, self.pending()),
//@ loop 0 start
    proof {
        assert(self.buf@.subrange(i as int, i + dl.len()) =~= have.subrange(i as int, i + dl.len()));
        assert(dl.subrange(0, dl.len() as int) =~= dl);
        if slice_match(self.buf@, dl, i as int) { lemma_first(have, dl, i as int); }
        else { lemma_no_match(have, dl, i as int); }
    }
//@ before copy_prefix 0
    let ghost b0 = self.buf@;
//@ before rotate_left 0
    let ghost z = self.buf@;
//@ after rotate_left 0
    proof {
        let n = i + dl.len();
        let f0 = have.len() as int;
        assert(data@ =~= have.take(i as int) + old(data)@.skip(i as int));
        assert(self.buf@.take(f0 - n) =~= z.skip(n).take(f0 - n));
        assert(self.buf@.take(f0 - n) =~= have.skip(n)) by {
            assert(b0.skip(n).take(f0 - n) =~= b0.take(f0).skip(n));
        }
    }
//@ loop 0 end
    proof { if self.buf_pos > self.buf_filled - dl.len() { lemma_none(have, dl, self.buf_pos as int); } }
//@ loop 0 before
    proof { if self.buf_pos > self.buf_filled - dl.len() { lemma_none(have, dl, self.buf_pos as int); } }
//@ end
//@ fn new
//@ ret r
    requires max_data_size + default_delimiter().len() <= usize::MAX,
    ensures
        r.wf() && r.pending().len() == 0, // [C20]
        r.max() == max_data_size && r.delimiter@ == default_delimiter(), // [C20]
//@ end
//@ fn read
//@ ret r
    requires old(self).wf(), old(data)@.len() >= old(self).max(),
    ensures
        final(self).wf(), // [C20]
        final(self).same_shape(old(self)), // [C20]
        !old(self).overfull() ==> reads(f, old(self).pending(), old(self).delimiter@, r, old(data)@, final(data)@, final(self).pending()), // [C20]
//@ before post_read 0
    let ghost full = self.buf@;
    let ghost pos = self.buf_filled as int;
    let ghost pend = self.pending();
//@ tail
    proof {
        let s = full.subrange(pos, pos + got(read_result));
        assert(full.take(pos + got(read_result)) =~= pend + s);
        assert(one_read(f, read_result, s, size as int, pend, self.delimiter@, old(data)@, data@, self.pending()));
    }
//@ end
//@ fn async_read noasync
//@ ret r_
    requires old(self).wf(), old(data)@.len() >= old(self).max(),
    ensures
        final(self).wf(), // [C20]
        final(self).same_shape(old(self)), // [C20]
        !old(self).overfull() ==> reads(r, old(self).pending(), old(self).delimiter@, r_, old(data)@, final(data)@, final(self).pending()), // [C20]
//@ before post_read 0
    let ghost full = self.buf@;
    let ghost pos = self.buf_filled as int;
    let ghost pend = self.pending();
//@ tail
    proof {
        let s = full.subrange(pos, pos + got(read_result));
        assert(full.take(pos + got(read_result)) =~= pend + s);
        assert(one_read(r, read_result, s, size as int, pend, self.delimiter@, old(data)@, data@, self.pending()));
    }
//@ end
//@ endimpl
//@ src src/utils/delimiter.rs
//@ item DelimiterWriter
//@ impl DelimiterWriter
//@ fn new_with_delimiter
//@ ret r
    ensures r.delimiter@ == delimiter@, // [C20]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ fn new
//@ ret r
    ensures r.delimiter@ == default_delimiter(), // [C20]
//@ end
//@ fn write
//@ ret r
    ensures
        final(self).delimiter@ == old(self).delimiter@, // [C20]
        r is Ok ==> r->Ok_0 == data@.len(), // [C20]
//@ start
    let ghost w0 = written(f);
//@ tail
    proof { assert(written(f) =~= w0 + data@ + self.delimiter@); } // [C20]
//@ end
//@ endimpl
pub open spec fn one_read<F>(f: F, res: io::Result<usize>, s: Seq<u8>, size: int, p: Seq<u8>, d: Seq<u8>, data0: Seq<u8>, data: Seq<u8>, rest: Seq<u8>) -> bool {
    answered(f, res, s) && s.len() == got(res) && handed(p + s, d, size, data0, data, rest)
}
/// one read of the underlying stream, then the first chunk of what is held, if any;
/// a failure is reported only if there is no chunk to hand out
pub open spec fn reads<F>(f: F, p: Seq<u8>, d: Seq<u8>, r: io::Result<usize>, data0: Seq<u8>, data: Seq<u8>, rest: Seq<u8>) -> bool {
    exists|res: io::Result<usize>, s: Seq<u8>, size: int| #[trigger] one_read(f, res, s, size, p, d, data0, data, rest)
        && if size == 0 && res is Err { r == res } else { r is Ok && r->Ok_0 == size }
}
pub open spec fn opt_n(o: Option<&usize>) -> int { match o { Some(n) => *n as int, None => 0 } }
/// different from a prefix of the delimiter means ruled out
pub proof fn lemma_mismatch(b: Seq<u8>, d: Seq<u8>, i: int)
    requires 0 <= i < b.len(), b.len() - i <= d.len(), b.skip(i) != d.take(b.len() - i)
    ensures ruled_out(b, d, i)
{
    let x = b.skip(i);
    let y = d.take(b.len() - i);
    if forall|k: int| 0 <= k < x.len() ==> x[k] == y[k] { assert(x =~= y); }
    let k = choose|k: int| 0 <= k < x.len() && x[k] != y[k];
    assert(b[i + k] != d[k]);
}
/// more bytes rule out no less
pub proof fn lemma_grow(a: Seq<u8>, b: Seq<u8>, d: Seq<u8>, n: int)
    requires
        a.len() <= b.len(), b.take(a.len() as int) == a,
        forall|i: int| 0 <= i < n ==> #[trigger] ruled_out(a, d, i),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] ruled_out(b, d, i)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] ruled_out(b, d, i) by {
        assert(ruled_out(a, d, i));
        let k = choose|k: int| 0 <= k < d.len() && i + k < a.len() && #[trigger] a[i + k] != d[k];
        assert(b.take(a.len() as int)[i + k] == b[i + k]);
    }
}
pub proof fn lemma_shift(a: Seq<u8>, b: Seq<u8>, d: Seq<u8>, sh: int, n: int)
    requires
        0 <= sh <= a.len(), b == a.skip(sh),
        forall|i: int| 0 <= i < n + sh ==> #[trigger] ruled_out(a, d, i),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] ruled_out(b, d, i)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] ruled_out(b, d, i) by {
        assert(ruled_out(a, d, i + sh));
        let k = choose|k: int| 0 <= k < d.len() && i + sh + k < a.len() && #[trigger] a[i + sh + k] != d[k];
        assert(b[i + k] == a[i + sh + k]);
    }
}
pub open spec fn slice_match(b: Seq<u8>, d: Seq<u8>, i: int) -> bool { b.subrange(i, i + d.len()) == d }
pub proof fn lemma_ruled(b: Seq<u8>, d: Seq<u8>, i: int)
    requires ruled_out(b, d, i)
    ensures !delim_at(b, d, i)
{
    let k = choose|k: int| 0 <= k < d.len() && i + k < b.len() && #[trigger] b[i + k] != d[k];
    if delim_at(b, d, i) { assert(b.subrange(i, i + d.len())[k] == d[k]); }
}
pub proof fn lemma_first(b: Seq<u8>, d: Seq<u8>, i: int)
    requires
        0 <= i, i + d.len() <= b.len(), slice_match(b, d, i),
        forall|j: int| 0 <= j < i ==> #[trigger] ruled_out(b, d, j),
    ensures is_first(b, d, i)
{
    assert forall|j: int| 0 <= j < i implies !#[trigger] delim_at(b, d, j) by { lemma_ruled(b, d, j); }
}
pub proof fn lemma_no_match(b: Seq<u8>, d: Seq<u8>, i: int)
    requires 0 <= i, i + d.len() <= b.len(), !slice_match(b, d, i)
    ensures ruled_out(b, d, i)
{
    let x = b.subrange(i, i + d.len());
    if forall|k: int| 0 <= k < x.len() ==> x[k] == d[k] { assert(x =~= d); }
    let k = choose|k: int| 0 <= k < x.len() && x[k] != d[k];
    assert(b[i + k] != d[k]);
}
pub proof fn lemma_none(b: Seq<u8>, d: Seq<u8>, n: int)
    requires
        n > b.len() - d.len(), d.len() > 0,
        forall|j: int| 0 <= j < n ==> #[trigger] ruled_out(b, d, j),
    ensures no_delim(b, d)
{
    assert forall|j: int| !#[trigger] delim_at(b, d, j) by { if 0 <= j < n { lemma_ruled(b, d, j); } }
}
// ---- the stream: delimiter-terminated chunks, however the reads split it -----------
pub open spec fn serial(chunks: Seq<Seq<u8>>, d: Seq<u8>) -> Seq<u8>
    decreases chunks.len()
{
    if chunks.len() == 0 { Seq::empty() } else { chunks[0] + d + serial(chunks.skip(1), d) }
}
/// chunks that are not empty, fit, and are followed by the delimiter at its first occurrence
pub open spec fn clean(chunks: Seq<Seq<u8>>, d: Seq<u8>, max: int) -> bool {
    &&& d.len() > 0
    &&& forall|i: int| 0 <= i < chunks.len() ==> 0 < (#[trigger] chunks[i]).len() <= max && is_first(chunks[i] + d, d, chunks[i].len() as int)
}
/// `out` was handed out so far, `held` is in the reader, `rest` not yet read
pub open spec fn on_track(chunks: Seq<Seq<u8>>, d: Seq<u8>, out: Seq<Seq<u8>>, held: Seq<u8>, rest: Seq<u8>) -> bool {
    &&& out.len() <= chunks.len()
    &&& out == chunks.take(out.len() as int)
    &&& held + rest == serial(chunks.skip(out.len() as int), d)
}
pub proof fn lemma_first_grows(a: Seq<u8>, b: Seq<u8>, d: Seq<u8>, n: int)
    requires a.len() <= b.len(), b.take(a.len() as int) == a, d.len() > 0
    ensures
        is_first(a, d, n) ==> is_first(b, d, n),
        is_first(b, d, n) && n + d.len() <= a.len() ==> is_first(a, d, n),
        is_first(b, d, n) && n + d.len() > a.len() ==> no_delim(a, d),
{
    assert forall|j: int| j + d.len() <= a.len() implies delim_at(a, d, j) == delim_at(b, d, j) by {
        if 0 <= j { assert(a.subrange(j, j + d.len()) =~= b.subrange(j, j + d.len())); }
    }
    if is_first(a, d, n) {
        assert forall|j: int| 0 <= j < n implies !#[trigger] delim_at(b, d, j) by {
            assert(!delim_at(a, d, j));
        }
    }
    if is_first(b, d, n) && n + d.len() <= a.len() {
        assert forall|j: int| 0 <= j < n implies !#[trigger] delim_at(a, d, j) by { assert(!delim_at(b, d, j)); }
    }
    if is_first(b, d, n) && n + d.len() > a.len() {
        assert forall|j: int| !#[trigger] delim_at(a, d, j) by {
            if delim_at(a, d, j) { assert(j < n); assert(!delim_at(b, d, j)); }
        }
    }
}
pub proof fn lemma_one_first(b: Seq<u8>, d: Seq<u8>, i: int, j: int)
    requires is_first(b, d, i), is_first(b, d, j)
    ensures i == j
{
    if i < j { assert(!delim_at(b, d, i)); }
    if j < i { assert(!delim_at(b, d, j)); }
}
/// [C20] one read keeps on track: it hands out exactly the next chunk, as soon as that
/// chunk and its delimiter are there, and otherwise nothing is handed out or lost
pub proof fn theorem_read(chunks: Seq<Seq<u8>>, d: Seq<u8>, max: int, out: Seq<Seq<u8>>, held: Seq<u8>, rest: Seq<u8>, n: int, size: int, data0: Seq<u8>, data: Seq<u8>, held2: Seq<u8>)
    requires
        clean(chunks, d, max),
        on_track(chunks, d, out, held, rest),
        0 <= n <= rest.len(),
        handed(held + rest.take(n), d, size, data0, data, held2),
    ensures
        size == 0 ==> on_track(chunks, d, out, held2, rest.skip(n)),
        size > 0 ==> out.len() < chunks.len() && data.take(size) == chunks[out.len() as int] && data.skip(size) == data0.skip(size)
            && on_track(chunks, d, out.push(data.take(size)), held2, rest.skip(n)),
        out.len() < chunks.len() && held.len() + n >= chunks[out.len() as int].len() + d.len() ==> size > 0,
{
    let k = out.len() as int;
    let have = held + rest.take(n);
    let all = held + rest;
    assert(all.take(have.len() as int) =~= have);
    let left = chunks.skip(k);
    assert(held2.len() <= have.len());
    if k < chunks.len() {
        let c = left[0];
        assert(c == chunks[k]);
        let tail = serial(left.skip(1), d);
        assert(all == c + d + tail);
        assert(all.take((c + d).len() as int) =~= c + d);
        lemma_first_grows(c + d, all, d, c.len() as int);
        lemma_first_grows(have, all, d, c.len() as int);
        if is_first(have, d, size) {
            lemma_first_grows(have, all, d, size);
            lemma_one_first(all, d, size, c.len() as int);
            assert(data.take(size) =~= c) by {
                assert(have.take(size) =~= all.take(size));
                assert(all.take(size) =~= c);
            }
            assert(data.skip(size) =~= data0.skip(size));
            assert(held2 + rest.skip(n) =~= all.skip(size + d.len()));
            assert(all.skip(size + d.len()) =~= tail);
            assert(left.skip(1) =~= chunks.skip(k + 1));
            assert(out.push(c) =~= chunks.take(k + 1));
        } else {
            assert(held2 + rest.skip(n) =~= all);
        }
    } else {
        assert(all.len() == 0);
        assert(held2 + rest.skip(n) =~= all);
        if is_first(have, d, size) { assert(delim_at(have, d, size)); }
    }
}
/// [C20] on such a stream the buffer never fills up without a delimiter
pub proof fn theorem_never_overfull(r: &DelimiterReader, chunks: Seq<Seq<u8>>, d: Seq<u8>, out: Seq<Seq<u8>>, rest: Seq<u8>)
    requires
        r.wf(), r.delimiter@ == d,
        clean(chunks, d, r.max()),
        on_track(chunks, d, out, r.pending(), rest),
    ensures !r.overfull()
{
    if r.overfull() {
        let held = r.pending();
        let all = held + rest;
        let k = out.len() as int;
        let left = chunks.skip(k);
        assert(held.len() == r.buf@.len());
        assert(held.len() > 0);
        assert(all.len() == held.len() + rest.len());
        assert(all == serial(left, d));
        if left.len() == 0 { assert(serial(left, d).len() == 0); }
        assert(left.len() > 0);
        let c = left[0];
        assert(c == chunks[k]);
        assert(all.take((c + d).len() as int) =~= c + d);
        lemma_first_grows(c + d, all, d, c.len() as int);
        assert(all.take(held.len() as int) =~= held);
        lemma_first_grows(held, all, d, c.len() as int);
        assert(ruled_out(held, d, c.len() as int));
        lemma_ruled(held, d, c.len() as int);
    }
}
