//@ src src/core/transport/wire/input/decoder.rs
//@ keep
//@ subst HashMap<TtlValue<u32>, PacketGroup> => TtlMap<PacketGroup>
//@ subst packet_groups: HashMap::new() => packet_groups: TtlMap::new()
//@ item DecoderError
//@ item PacketGroup
//@ item Decoder

pub open spec fn wf_group(id: u32, g: PacketGroup) -> bool {

    &&& forall|k: u32| #[trigger] g.packets@.dom().contains(k) ==> {
            &&& g.packets@[k].metadata.index == k
            &&& g.packets@[k].metadata.id == id
            &&& is_final(g.packets@[k]) == (g.final_index == Some(k))
            &&& g.final_index.is_some() ==> k <= g.final_index.unwrap()
        }
    &&& g.final_index.is_some() ==> g.packets@.dom().contains(g.final_index.unwrap())
}
pub type Groups = Map<u32, (TtlValue<u32>, PacketGroup)>;
pub open spec fn wf_groups(m: Groups) -> bool {
    forall|id: u32| #[trigger] m.dom().contains(id) ==> wf_group(id, m[id].1) && m[id].0.value == id
}
/// the packets held for `id`
pub open spec fn held(m: Groups, id: u32) -> Map<u32, Packet> {
    if m.dom().contains(id) { m[id].1.packets@ } else { Map::empty() }
}
pub open spec fn last_of(m: Groups, id: u32) -> Option<u32> {
    if m.dom().contains(id) { m[id].1.final_index } else { None }
}
/// the position of the final packet is known and every packet up to it is held
pub open spec fn complete(m: Groups, id: u32) -> bool {
    last_of(m, id).is_some() && forall|k: u32| k <= last_of(m, id).unwrap() ==> #[trigger] held(m, id).dom().contains(k)
}
/// why a packet is refused, if it is
pub open spec fn refusal(m: Groups, p: Packet) -> Option<DecoderError> {
    let id = p.metadata.id;
    let index = p.metadata.index;
    if held(m, id).dom().contains(index) {
        Some(DecoderError::PacketExists { id, index })
    } else if last_of(m, id).is_some() && is_final(p) {
        Some(DecoderError::FinalPacketAlreadyExists { id, index: last_of(m, id).unwrap() })
    } else if last_of(m, id).is_some() && index > last_of(m, id).unwrap() {
        Some(DecoderError::PacketBeyondLastIndex { id, index })
    } else if is_final(p) && exists|k: u32| #[trigger] held(m, id).dom().contains(k) && k > index {
        Some(DecoderError::PacketBeyondLastIndex { id, index })
    } else {
        None
    }
}
/// `m2` is `m` with packet `p` added to its group and nothing else changed
pub open spec fn added(m: Groups, m2: Groups, p: Packet) -> bool {
    let id = p.metadata.id;
    &&& m2.dom() == m.dom().insert(id)
    &&& forall|i: u32| i != id && #[trigger] m2.dom().contains(i) ==> m2[i] == m[i]
    &&& m2[id].1.packets@ == held(m, id).insert(p.metadata.index, p)
    &&& m2[id].1.final_index == if is_final(p) { Some(p.metadata.index) } else { last_of(m, id) }
    &&& m2[id].0.value == id
    &&& m.dom().contains(id) ==> m2[id].0 == m[id].0
}
/// the data of the packets at positions 0..n, in order
pub open spec fn data_upto(held: Map<u32, Packet>, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { data_upto(held, (n - 1) as nat) + held[(n - 1) as u32].data@ }
}
pub open spec fn message(m: Groups, id: u32) -> Seq<u8> {
    data_upto(held(m, id), last_of(m, id).unwrap() as nat + 1)
}

/// a complete, well-formed group holds exactly the positions 0..=last
pub proof fn lemma_complete_count(id: u32, g: PacketGroup)
    requires wf_group(id, g), g.final_index.is_some(),
    ensures
        (g.packets@.dom().len() == g.final_index.unwrap() as nat + 1)
            == (forall|k: u32| k <= g.final_index.unwrap() ==> #[trigger] g.packets@.dom().contains(k)),
{
    let f = g.final_index.unwrap();
    let full = upto(f);
    lemma_upto(f);
    assert(g.packets@.dom().subset_of(full));
    vstd::set_lib::lemma_len_subset(g.packets@.dom(), full);
    if g.packets@.dom().len() == f as nat + 1 {
        vstd::set_lib::lemma_subset_equality(g.packets@.dom(), full);
    }
    if forall|k: u32| k <= f ==> #[trigger] g.packets@.dom().contains(k) {
        assert(g.packets@.dom() =~= full);
    }
}
pub open spec fn upto(f: u32) -> Set<u32>
    decreases f
{ if f == 0 { set![0u32] } else { upto((f - 1) as u32).insert(f) } }
pub proof fn lemma_upto(f: u32)
    ensures upto(f).len() == f as nat + 1, forall|k: u32| #[trigger] upto(f).contains(k) == (k <= f),
    decreases f
{ if f > 0 { lemma_upto((f - 1) as u32); } }

/// distinct positions below n, in ascending order, are 0, 1, 2, ...
pub proof fn lemma_sorted_distinct(t: Seq<u32>)
    requires
        forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < t.len(),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] < #[trigger] t[j],
    ensures forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == i,
{
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == i by {
        lemma_at_least(t, i);
        lemma_at_most(t, i);
    }
}
proof fn lemma_at_least(t: Seq<u32>, i: int)
    requires 0 <= i < t.len(),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] < #[trigger] t[j],
    ensures t[i] >= i,
    decreases i
{ if i > 0 { lemma_at_least(t, i - 1); } }
proof fn lemma_at_most(t: Seq<u32>, i: int)
    requires 0 <= i < t.len(),
        forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < t.len(),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] < #[trigger] t[j],
    ensures t[i] <= i,
    decreases t.len() - i
{ if i < t.len() - 1 { lemma_at_most(t, i + 1); } }

pub open spec fn strictly_sorted(s: Seq<&Packet>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).metadata.index <= (#[trigger] s[j]).metadata.index
}
pub open spec fn is_values(g: PacketGroup, s: Seq<&Packet>) -> bool {
    exists|ks: Seq<u32>| #[trigger] enumerates(ks, g.packets@, s)
}
pub proof fn lemma_perm_values(g: PacketGroup, a: Seq<&Packet>, b: Seq<&Packet>, perm: Seq<int>)
    requires is_values(g, a), is_perm(perm, a.len() as int), permuted(a, b, perm)
    ensures is_values(g, b)
{
    let ks = choose|ks: Seq<u32>| #[trigger] enumerates(ks, g.packets@, a);
    let ks2 = Seq::new(ks.len(), |i: int| ks[perm[i]]);
    assert(enumerates(ks2, g.packets@, b));
}
pub proof fn lemma_sorted_packets(id: u32, g: PacketGroup, s: Seq<&Packet>)
    requires wf_group(id, g), is_values(g, s), strictly_sorted(s), g.final_index.is_some(),
        forall|k: u32| k <= g.final_index.unwrap() ==> #[trigger] g.packets@.dom().contains(k),
    ensures
        s.len() == g.final_index.unwrap() as nat + 1,
        forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == g.packets@[i as u32],
{
    lemma_complete_count(id, g);
    let ks = choose|ks: Seq<u32>| #[trigger] enumerates(ks, g.packets@, s);
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] < #[trigger] ks[j] by {
        assert(s[i].metadata.index <= s[j].metadata.index);
        assert(g.packets@.dom().contains(ks[i]));
        assert(g.packets@.dom().contains(ks[j]));
    }
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] < ks.len() by {
        assert(g.packets@.dom().contains(ks[i]));
    }
    lemma_sorted_distinct(ks);
    assert forall|i: int| 0 <= i < s.len() implies *(#[trigger] s[i]) == g.packets@[i as u32] by {
        assert(ks[i] == i);
    }
}
pub proof fn lemma_flat_is_data(h: Map<u32, Packet>, s: Seq<&Packet>, parts: Seq<Seq<u8>>, n: nat)
    requires n == parts.len(), parts.len() == s.len(), n <= u32::MAX as nat + 1,
        forall|i: int| 0 <= i < parts.len() ==> #[trigger] parts[i] == s[i].data@,
        forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == h[i as u32],
    ensures flat(parts) == data_upto(h, n)
    decreases n
{
    if n > 0 {
        lemma_flat_is_data(h, s.drop_last(), parts.drop_last(), (n - 1) as nat);
        assert(*s[n - 1] == h[(n - 1) as u32]);
    }
}

//@ impl Default for PacketGroup
//@ fn default
//@ ret r
    ensures r.packets@ == Map::<u32, Packet>::empty(), r.final_index.is_none(), // [C01 C03]
//@ end
//@ endimpl
//@ impl Decoder
//@ fn new
//@ ret r
    ensures
        r.packet_groups@ == Map::<u32, (TtlValue<u32>, PacketGroup)>::empty(), // [C03]
        r.ttl == ttl, // [C07]
//@ end
//@ fn add_packet
//@ ret r
    requires wf_groups(old(self).packet_groups@),
    ensures
        r.is_err() == refusal(old(self).packet_groups@, packet).is_some(), // [C01 C03]
        r.is_err() ==> r->Err_0 == refusal(old(self).packet_groups@, packet).unwrap(), // [C03]
        r.is_err() ==> final(self).packet_groups@ == old(self).packet_groups@, // [C01 C03]
        r.is_ok() ==> added(old(self).packet_groups@, final(self).packet_groups@, packet), // [C01 C03 C07]
        r.is_ok() && !old(self).packet_groups@.dom().contains(packet.metadata.id)
            ==> final(self).packet_groups@[packet.metadata.id].0.spec_ttl() == old(self).ttl, // [C07]
        wf_groups(final(self).packet_groups@), // [C01 C03]
        final(self).ttl == old(self).ttl, // [C07]
//@ end
//@ fn remove_group
//@ ret r
    ensures
        final(self).packet_groups@ == old(self).packet_groups@.remove(group_id), // [C01 C03]
        r == old(self).packet_groups@.dom().contains(group_id), // [C03]
        final(self).ttl == old(self).ttl, // [C07]
//@ end
//@ fn remove_expired
    ensures
        purged(old(self).packet_groups@, final(self).packet_groups@), // [C01 C03 C07]
        final(self).ttl == old(self).ttl, // [C07]
//@ closure 0 (r: bool)
    ensures exists|now: Instant| #[trigger] clock_reads(now) && r == !expired_at(*k, now)
//@ end
//@ fn verify
//@ ret r
    requires wf_groups(self.packet_groups@),
    ensures r == complete(self.packet_groups@, group_id), // [C01 C03]
//@ closure 0 (r: Option<bool>)
    ensures r == match g.final_index { None => None::<bool>, Some(i) => Some(i as nat + 1 == g.packets@.dom().len()) }
//@ closure 1 (r: bool)
    ensures r == (i as nat + 1 == total_packets as nat)
//@ tail
    proof {
        let m = self.packet_groups@;
        if m.dom().contains(group_id) && m[group_id].1.final_index.is_some() {
            assert(held(m, group_id) == m[group_id].1.packets@);
            lemma_complete_count(group_id, m[group_id].1);
        }
    }
//@ end
//@ fn nonce
//@ ret r
    requires wf_groups(self.packet_groups@),
    ensures
        last_of(self.packet_groups@, group_id).is_some() ==>
            r == type_nonce(held(self.packet_groups@, group_id)[last_of(self.packet_groups@, group_id).unwrap()].metadata.r#type), // [C01]
//@ closure 0 (r: Option<&Packet>)
    ensures
        r.is_some() == (g.final_index.is_some() && g.packets@.dom().contains(g.final_index.unwrap())),
        r.is_some() ==> *r.unwrap() == g.packets@[g.final_index.unwrap()],
//@ closure 1 (r: Option<&Packet>)
    ensures
        r.is_some() == g.packets@.dom().contains(i),
        r.is_some() ==> *r.unwrap() == g.packets@[i],
//@ closure 2 (r: Option<Nonce>)
    ensures r == type_nonce(p.metadata.r#type)
//@ end
//@ fn decode
//@ ret r
    requires wf_groups(self.packet_groups@),
    ensures
        r.is_ok() == complete(self.packet_groups@, group_id), // [C01 C03]
        r.is_ok() ==> r->Ok_0@ == message(self.packet_groups@, group_id), // [C01]
//@ closure 0 (r: u32)
    ensures r == p.metadata.index
//@ closure 1 (r: Vec<u8>)
    ensures r@ == p.data@
//@ before sort_unstable_by_key 0
    let ghost vals = packets@;
//@ tail
    proof {
        let id = group_id;
        let m = self.packet_groups@;
        assert(held(m, id) == group.packets@);
        assert(is_values(*group, vals));
        let perm = choose|perm: Seq<int>| #[trigger] is_perm(perm, vals.len() as int) && permuted(vals, packets@, perm);
        lemma_perm_values(*group, vals, packets@, perm);
        lemma_sorted_packets(id, *group, packets@);
        assert forall|parts: Seq<Seq<u8>>| parts.len() == packets@.len()
            && (forall|i: int| 0 <= i < parts.len() ==> #[trigger] parts[i] == packets@[i].data@)
            implies #[trigger] flat(parts) == message(m, id) by {
            lemma_flat_is_data(held(m, id), packets@, parts, parts.len() as nat);
        }
    }
//@ end
//@ endimpl
/// exactly the expired groups are gone, judged by clock readings; the others
/// are untouched
pub open spec fn purged(m: Groups, m2: Groups) -> bool {
    &&& m2.dom().subset_of(m.dom())
    &&& forall|i: u32| #[trigger] m2.dom().contains(i) ==> m2[i] == m[i]
    &&& forall|i: u32| #[trigger] m.dom().contains(i) ==>
            exists|now: Instant| #[trigger] clock_reads(now) && m2.dom().contains(i) == !expired_at(m[i].0, now)
}
//@ unsubst
