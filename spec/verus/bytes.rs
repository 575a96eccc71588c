//@@include bytespec.rs
/// every byte is in exactly one line, in order
pub proof fn chunks_are_all(b: Seq<u8>, w: int) requires w > 0
  ensures chunked(b, w).flatten() == b, forall|i: int| 0 <= i < chunked(b, w).len() ==> 0 < (#[trigger] chunked(b, w)[i]).len() <= w && (i + 1 < chunked(b, w).len() ==> chunked(b, w)[i].len() == w)
  decreases b.len()
{
  if b.len() > 0 {
    let k = width(b.len() as int, w);
    chunks_are_all(b.skip(k), w);
    let c = chunked(b, w); let d = chunked(b.skip(k), w);
    assert(c.drop_first() =~= d);
    assert(c.flatten() == b.take(k) + d.flatten());
    assert(b.take(k) + b.skip(k) =~= b);
    assert forall|i: int| 0 <= i < c.len() implies 0 < (#[trigger] c[i]).len() <= w && (i + 1 < c.len() ==> c[i].len() == w) by { if i > 0 { assert(c[i] == d[i - 1]); } else if c.len() > 1 { assert(b.skip(k).len() > 0); } }
  }
}
// std: <[u8]>::chunks
#[verifier::external_body]
pub fn vx_chunks(b: &[u8], w: usize) -> (r: Vec<&[u8]>) requires w > 0 ensures r@.len() == chunked(b@, w as int).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunked(b@, w as int)[i] { b.chunks(w).collect() }
//@@ fn src/util.rs print_bytes_small
//@ params bytes
//@ param stdout: &mut StandardStream
//@ prints print=stdout
//@ loops for
//@ locals byte
//@ iter 0 it
//@ spec
ensures final(stdout)@ == small(old(stdout)@, bytes@)
//@ loop 0
	invariant stdout@ == small(old(stdout)@, bytes@.take(it.index() as int)),
	  it.seq().len() == bytes@.len(), it.index() <= bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] it.seq()[i]) == bytes@[i],
//@ loop 0 end
	proof { let t = bytes@.take(it.index() + 1); assert(t.drop_last() =~= bytes@.take(it.index() as int)); assert(t.last() == *byte); }
//@ tail
	proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@@ end
//@@ fn src/util.rs print_bytes
//@ params bytes bytes_per_line indentation
//@ param stdout: &mut StandardStream
//@ prints print=stdout
//@ lower body /bytes\.chunks\(bytes_per_line\)/ => vx_chunks(bytes, bytes_per_line)
//@ loops for for
//@ locals line first byte
//@ iter 0 it
//@ iter 1 jt
//@ begin
	hide(line_of);
	proof { chunks_are_all(bytes@, bytes_per_line as int); }
	let ghost c = chunked(bytes@, bytes_per_line as int); let ghost w = bytes_per_line as int; let ghost ind = indentation as int;
//@ spec
requires bytes_per_line > 0
ensures final(stdout)@ == dump(old(stdout)@, bytes@, bytes_per_line as int, indentation as int, false)
//@ loop 0
	invariant stdout@ == lines(old(stdout)@, c, it.index() as int, w, ind, false), ind == indentation,
	  it.seq().len() == c.len(), it.index() <= c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] it.seq()[i])@ == c[i],
//@ loop 0 begin
	let ghost s0 = stdout@; let ghost cur = line@; proof { assert(cur == c[it.index() as int]); }
//@ loop 0 end
	proof { reveal(line_of); assert(cur.take(cur.len() as int) =~= cur); }
//@ loop 1
	invariant stdout@ == spaced(s0 + tabs(ind), line@.take(jt.index() as int)), first == (jt.index() == 0),
	  jt.seq().len() == line@.len(), jt.index() <= line@.len(), forall|i: int| 0 <= i < line@.len() ==> *(#[trigger] jt.seq()[i]) == line@[i],
//@ loop 1 end
	proof { let t = line@.take(jt.index() + 1); assert(t.drop_last() =~= line@.take(jt.index() as int)); assert(t.last() == *byte); }
//@@ end
//@@ fn src/util.rs print_bytes_pretty
//@ params bytes bytes_per_line indentation
//@ param stdout: &mut StandardStream
//@ prints print=stdout
//@ lower body /bytes\.chunks\(bytes_per_line\)/ => vx_chunks(bytes, bytes_per_line)
//@ loops for for for for
//@ locals line first byte byte printable_char
//@ iter 0 it
//@ iter 1 jt
//@ iter 2 kt
//@ iter 3 lt
//@ begin
	hide(line_of);
	proof { chunks_are_all(bytes@, bytes_per_line as int); }
	let ghost c = chunked(bytes@, bytes_per_line as int); let ghost w = bytes_per_line as int; let ghost ind = indentation as int;
//@ spec
requires bytes_per_line > 0
ensures final(stdout)@ == dump(old(stdout)@, bytes@, bytes_per_line as int, indentation as int, true)
//@ loop 0
	invariant stdout@ == lines(old(stdout)@, c, it.index() as int, w, ind, true), ind == indentation, w == bytes_per_line,
	  it.seq().len() == c.len(), it.index() <= c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] it.seq()[i])@ == c[i],
	  forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).len() <= w,
//@ loop 0 begin
	let ghost s0 = stdout@; let ghost cur = line@; proof { assert(cur == c[it.index() as int]); }
//@ loop 0 end
	proof { reveal(line_of); assert(cur.take(cur.len() as int) =~= cur); }
//@ loop 1
	invariant stdout@ == spaced(s0 + tabs(ind), line@.take(jt.index() as int)), first == (jt.index() == 0),
	  jt.seq().len() == line@.len(), jt.index() <= line@.len(), forall|i: int| 0 <= i < line@.len() ==> *(#[trigger] jt.seq()[i]) == line@[i],
//@ loop 1 end
	proof { let t = line@.take(jt.index() + 1); assert(t.drop_last() =~= line@.take(jt.index() as int)); assert(t.last() == *byte); }
//@ loop 2
	invariant stdout@ == filler(spaced(s0 + tabs(ind), line@.take(line@.len() as int)), kt.index() as int), kt.seq().len() == w - line@.len(), kt.index() <= w - line@.len(),
//@ loop 2 end
	proof { }
//@ loop 3
	invariant stdout@ == readout(filler(spaced(s0 + tabs(ind), line@.take(line@.len() as int)), w - line@.len()) + tx("  "@), line@.take(lt.index() as int)),
	  lt.seq().len() == line@.len(), lt.index() <= line@.len(), forall|i: int| 0 <= i < line@.len() ==> *(#[trigger] lt.seq()[i]) == line@[i],
//@ loop 3 end
	proof { let t = line@.take(lt.index() + 1); assert(t.drop_last() =~= line@.take(lt.index() as int)); assert(t.last() == line@[lt.index() as int]); }
//@@ end
