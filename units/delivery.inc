// ---- C01, the whole history: whatever order and interleaving the packets of
// any number of messages arrive in, each message comes out once, whole
pub open spec fn is_split(s: Seq<Packet>, id: u32) -> bool {
    &&& s.len() >= 1
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).metadata.id == id
            && s[i].metadata.index == i && is_final(s[i]) == (i == s.len() - 1)
}
/// the groups hold exactly those packets of `s` whose positions are in `seen`
pub open spec fn tracks(m: Groups, id: u32, s: Seq<Packet>, seen: Set<int>) -> bool {
    &&& forall|k: int| #[trigger] seen.contains(k) ==> 0 <= k < s.len()
    &&& forall|k: u32| #[trigger] held(m, id).dom().contains(k) == seen.contains(k as int)
    &&& forall|k: u32| #[trigger] held(m, id).dom().contains(k) ==> held(m, id)[k] == s[k as int]
    &&& last_of(m, id) == if seen.contains(s.len() - 1) { Some((s.len() - 1) as u32) } else { None }
}
pub open spec fn whole(s: Seq<Packet>, seen: Set<int>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> #[trigger] seen.contains(k)
}
pub proof fn lemma_split_index(s: Seq<Packet>, id: u32, k: int)
    requires is_split(s, id), 0 <= k < s.len()
    ensures 0 <= k <= u32::MAX, s[k].metadata.index as int == k, (k as u32) as int == k,
        s[k].metadata.id == id, is_final(s[k]) == (k == s.len() - 1), s.len() - 1 <= u32::MAX
{
    assert(s[s.len() - 1].metadata.index == s.len() - 1);
}
pub proof fn lemma_encodes_split<S: Signer>(s: Seq<Packet>, data: Seq<u8>, id: u32, e: PacketEncryption, signer: S)
    requires encodes(s, data, id, e, signer)
    ensures is_split(s, id), type_nonce(s.last().metadata.r#type) == enc_nonce(e)
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).metadata.id == id
            && s[i].metadata.index == i && is_final(s[i]) == (i == s.len() - 1) by {
        assert(proper(s[i], i, i == s.len() - 1, id, e, signer));
    }
    assert(proper(s[s.len() - 1], s.len() - 1, true, id, e, signer));
}
/// a packet of the split that has not arrived yet is never refused
pub proof fn lemma_not_refused(m: Groups, id: u32, s: Seq<Packet>, seen: Set<int>, k: int)
    requires is_split(s, id), tracks(m, id, s, seen), 0 <= k < s.len(), !seen.contains(k)
    ensures refusal(m, s[k]).is_none()
{
    lemma_split_index(s, id, k);
    assert(!held(m, id).dom().contains(k as u32));
    if is_final(s[k]) {
        assert forall|j: u32| #[trigger] held(m, id).dom().contains(j) implies j <= k as u32 by {
            assert(seen.contains(j as int));
        }
    }
}
/// one that has arrived is, and nothing changes
pub proof fn lemma_duplicate_refused(m: Groups, id: u32, s: Seq<Packet>, seen: Set<int>, k: int)
    requires is_split(s, id), tracks(m, id, s, seen), seen.contains(k)
    ensures refusal(m, s[k]).is_some()
{
    lemma_split_index(s, id, k);
    assert(held(m, id).dom().contains(k as u32) == seen.contains((k as u32) as int));
}
pub proof fn lemma_step(m: Groups, m2: Groups, id: u32, s: Seq<Packet>, seen: Set<int>, k: int)
    requires is_split(s, id), tracks(m, id, s, seen), 0 <= k < s.len(), !seen.contains(k), added(m, m2, s[k])
    ensures
        tracks(m2, id, s, seen.insert(k)),
        complete(m2, id) == whole(s, seen.insert(k)),
        complete(m2, id) ==> message(m2, id) == cat(s),
        complete(m2, id) ==> held(m2, id)[last_of(m2, id).unwrap()] == s.last(),
{
    lemma_split_index(s, id, k);
    let seen2 = seen.insert(k);
    let n = (s.len() - 1) as u32;
    assert(held(m2, id) == held(m, id).insert(k as u32, s[k]));
    assert forall|j: u32| #[trigger] held(m2, id).dom().contains(j) == seen2.contains(j as int) by {
        assert(held(m, id).dom().contains(j) == seen.contains(j as int));
    }
    assert(tracks(m2, id, s, seen2));
    if complete(m2, id) {
        assert(last_of(m2, id) == Some(n));
        assert forall|j: int| 0 <= j < s.len() implies #[trigger] seen2.contains(j) by {
            lemma_split_index(s, id, j);
            assert(held(m2, id).dom().contains(j as u32) == seen2.contains((j as u32) as int));
        }
        assert forall|j: u32| (j as int) < s.len() implies #[trigger] held(m2, id)[j] == s[j as int] by {
            assert(seen2.contains(j as int));
            assert(held(m2, id).dom().contains(j));
        }
        lemma_data_cat(held(m2, id), s, id, s.len());
        assert(s.take(s.len() as int) =~= s);
        assert(held(m2, id).dom().contains(n));
    }
    if whole(s, seen2) {
        assert(seen2.contains(s.len() - 1));
        assert(last_of(m2, id) == Some(n));
        assert forall|j: u32| j <= n implies #[trigger] held(m2, id).dom().contains(j) by {
            assert(seen2.contains(j as int));
        }
    }
}
pub proof fn lemma_data_cat(h: Map<u32, Packet>, s: Seq<Packet>, id: u32, n: nat)
    requires is_split(s, id), n <= s.len(), forall|j: u32| (j as int) < n ==> #[trigger] h[j] == s[j as int]
    ensures data_upto(h, n) == cat(s.take(n as int))
    decreases n
{
    if n > 0 {
        lemma_split_index(s, id, n - 1);
        lemma_data_cat(h, s, id, (n - 1) as nat);
        assert(s.take(n as int).drop_last() =~= s.take(n - 1));
        assert(h[(n - 1) as u32] == s[n - 1]);
    } else {
        assert(s.take(0) =~= Seq::<Packet>::empty());
    }
}
/// packets of one message leave what is held for another alone
pub proof fn lemma_frame(m: Groups, m2: Groups, p: Packet, id: u32, s: Seq<Packet>, seen: Set<int>)
    requires added(m, m2, p), p.metadata.id != id, tracks(m, id, s, seen)
    ensures tracks(m2, id, s, seen), tracks(m2.remove(p.metadata.id), id, s, seen)
{
    assert(m2.dom().contains(id) == m.dom().contains(id));
    assert(held(m2, id) == held(m, id));
    assert(held(m2.remove(p.metadata.id), id) == held(m, id));
}

/// a history: message `id` was split into `sp[id]`; `ar[t]` says which packet
/// arrives at step t; no packet arrives twice and nothing expires meanwhile
pub struct History {
    pub sp: Map<u32, Seq<Packet>>,
    pub ar: Seq<(u32, int)>,
    pub st: Seq<Groups>,
    pub out: Seq<Result<Option<Vec<u8>>, InputProcessorError>>,
}
pub open spec fn seen_at(h: History, t: int, id: u32) -> Set<int>
    decreases t
{
    if t <= 0 { Set::empty() }
    else if h.ar[t - 1].0 == id { seen_at(h, t - 1, id).insert(h.ar[t - 1].1) }
    else { seen_at(h, t - 1, id) }
}
pub open spec fn is_history<D: Decrypter>(h: History, decrypter: D) -> bool {
    &&& h.st.len() == h.ar.len() + 1
    &&& h.out.len() == h.ar.len()
    &&& h.st[0] == Map::<u32, (TtlValue<u32>, PacketGroup)>::empty()
    &&& forall|id: u32| #[trigger] h.sp.dom().contains(id) ==> is_split(h.sp[id], id)
    &&& forall|t: int| 0 <= t < h.ar.len() ==> #[trigger] arrives(h, t)
    &&& forall|t: int| 0 <= t < h.ar.len() ==>
            takes_packet(h.st[t], h.sp[(#[trigger] h.ar[t]).0][h.ar[t].1], decrypter, h.st[t + 1], h.out[t])
}
pub open spec fn arrives(h: History, t: int) -> bool {
    let (id, k) = h.ar[t];
    h.sp.dom().contains(id) && 0 <= k < h.sp[id].len() && !seen_at(h, t, id).contains(k)
}
/// nothing comes out before the last missing packet of a message; then the
/// decryption of exactly the data that was split comes out
pub open spec fn delivered<D: Decrypter>(h: History, decrypter: D, t: int) -> bool {
    let s = h.sp[h.ar[t].0];
    if !whole(s, seen_at(h, t + 1, h.ar[t].0)) {
        h.out[t] == Ok::<Option<Vec<u8>>, InputProcessorError>(None)
    } else {
        match h.out[t] {
            Ok(o) => o.is_some() && decrypter.decrypts(cat(s), ad_of(type_nonce(s.last().metadata.r#type)), o.unwrap()@),
            Err(e) => e is DecryptData,
        }
    }
}
pub open spec fn in_step(h: History, t: int) -> bool {
    forall|id: u32| #[trigger] h.sp.dom().contains(id) && !whole(h.sp[id], seen_at(h, t, id))
        ==> tracks(h.st[t], id, h.sp[id], seen_at(h, t, id))
}
pub proof fn theorem_delivery<D: Decrypter>(h: History, decrypter: D, n: int) // [C01 C03]
    requires is_history(h, decrypter), 0 <= n <= h.ar.len()
    ensures in_step(h, n), forall|t: int| 0 <= t < n ==> #[trigger] delivered(h, decrypter, t)
    decreases n
{
    if n == 0 {
        assert forall|id: u32| #[trigger] h.sp.dom().contains(id) && !whole(h.sp[id], seen_at(h, 0, id))
            implies tracks(h.st[0], id, h.sp[id], seen_at(h, 0, id)) by {
            assert(is_split(h.sp[id], id));
        }
    } else {
        theorem_delivery(h, decrypter, n - 1);
        let t = n - 1;
        let (id, k) = h.ar[t];
        assert(arrives(h, t));
        let s = h.sp[id];
        let seen = seen_at(h, t, id);
        assert(seen_at(h, n, id) == seen.insert(k));
        assert(!seen.contains(k));
        assert(tracks(h.st[t], id, s, seen));
        lemma_split_index(s, id, k);
        lemma_not_refused(h.st[t], id, s, seen, k);
        assert(takes_packet(h.st[t], h.sp[h.ar[t].0][h.ar[t].1], decrypter, h.st[t + 1], h.out[t]));
        let ga = choose|ga: Groups| {
            &&& #[trigger] added(h.st[t], ga, s[k])
            &&& if !complete(ga, id) {
                    h.out[t] == Ok::<Option<Vec<u8>>, InputProcessorError>(None) && h.st[t + 1] == ga
                } else {
                    delivers(ga, id, decrypter, h.st[t + 1], h.out[t])
                }
        };
        lemma_step(h.st[t], ga, id, s, seen, k);
        assert(delivered(h, decrypter, t));
        assert forall|j: u32| #[trigger] h.sp.dom().contains(j) && !whole(h.sp[j], seen_at(h, n, j))
            implies tracks(h.st[n], j, h.sp[j], seen_at(h, n, j)) by {
            if j != id {
                assert(seen_at(h, n, j) == seen_at(h, t, j));
                lemma_frame(h.st[t], ga, s[k], j, h.sp[j], seen_at(h, t, j));
            }
        }
    }
}
/// what `OutputProcessor::process` puts on the wire, `InputProcessor::process`
/// of a verifier that accepts the sender's signatures takes in as those packets
pub proof fn theorem_wire<S: Signer, V: Verifier>(out: Seq<Vec<u8>>, s: Seq<Packet>, cipher: Seq<u8>, id: u32, e: PacketEncryption, signer: S, verifier: V, i: int) // [C01]
    requires
        encodes(s, cipher, id, e, signer), encoded(out, s, s.len() as int), 0 <= i < out.len(),
        forall|m: Seq<u8>, d: Digest| #[trigger] signer.signs(m, d) ==> verifier.accepts(m, d),
    ensures
        out[i]@.len() > 0,
        uncbor::<Packet>(out[i]@) == Some(s[i]),
        verifier.accepts(content(s[i]), s[i].signature),
{
    broadcast use axiom_packet_cbor_round_trip, axiom_packet_cbor_nonempty;
    assert(out[i]@ == cbor::<Packet>(s[i]));
    assert(proper(s[i], i, i == s.len() - 1, id, e, signer));
}
