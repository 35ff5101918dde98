import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
W="src/core/transport/wire/"
C="src/core/transport/crypto/"
S="src/core/server/"
p("C01","A message split into packets is reassembled byte-for-byte, in any arrival order",
 "Whatever non-negative number of bytes one side sends as a message, the packets it produces make a side holding the matching signature and cipher settings deliver exactly those bytes, exactly once, when the last missing packet arrives and not before. This holds for every order in which the packets arrive, for every transmission size large enough to send at all, and however packets of other messages are interleaved. An empty message is delivered as an empty message.",
 ["inputs","histories","configurations"],"every message content and length, every workable transmission size, every authenticator and cipher, every permutation and interleaving of the packets",
 "Tests send a few short literals in order with one or two sizes; out-of-order arrival is tested only without encryption.",
 [W+"output/mod.rs",W+"output/encoder.rs",W+"input/mod.rs",W+"input/decoder.rs",W+"packet.rs"],
 [("chunking loop that assigns index, final marker and data ranges",W+"output/encoder.rs Encoder::encode"),("index-ordered concatenation once the group is complete",W+"input/decoder.rs Decoder::verify/decode"),("associated data carried by the final packet",W+"packet.rs PacketType::Final; "+W+"input/mod.rs InputProcessor::process")],
 [("packet groups","packets received so far per message id, and the index of the final one once known",W+"input/decoder.rs Decoder.packet_groups")],
 ["return value of InputProcessor::process / InboundWire::process"])
p("C02","No packet exceeds the configured transmission size",
 "Every packet a sender emits occupies at most the configured maximum transmission size when serialized, including its metadata and signature. When that size is too small to carry even one byte of payload per packet, sending reports an error and emits nothing; it never loops forever or panics.",
 ["inputs","configurations"],"every message, transmission size, signature kind and key, cipher kind, and every sequence of earlier sends through the same sender (its size caches)",
 "Tests check a handful of sizes with a constant (empty) signature; real signature bytes make the encoded length vary.",
 [W+"output/encoder.rs",W+"output/mod.rs",W+"packet.rs"],
 [("search for the largest payload whose estimated packet fits",W+"output/encoder.rs Encoder::find_optimal_max_data_size"),("size estimate and caches keyed by packet kind",W+"output/encoder.rs Encoder::estimate_packet_size")],
 [("size caches","memoised payload capacity per (limit, packet kind) and packet size per (payload length, packet kind)",W+"output/encoder.rs Encoder")],["length of every element returned by OutputProcessor::process"])
p("C03","Reassembly accepts only a consistent, complete set of packets",
 "A receiver delivers a message only when it holds every packet from the first to the final one of that message id, once each. A packet that repeats an index already held, is a second final packet, or lies beyond the final packet is rejected with an error naming its id and the offending position, leaves everything already held unchanged, and never affects packets of other message ids. No sequence of packets, with any ids, positions and final markers, makes the receiver panic.",
 ["inputs","histories"],"every sequence of well-formed packets, including positions at the ends of the integer range and a final packet that arrives after packets beyond it",
 "Tests cover a few two- and three-packet sequences; the rejected and out-of-order cases interact over all histories.",
 [W+"input/decoder.rs",W+"input/mod.rs"],
 [("duplicate, second-final and beyond-final guards",W+"input/decoder.rs Decoder::add_packet"),("completeness test",W+"input/decoder.rs Decoder::verify")],
 [("packet groups","packets by position plus final position, per message id",W+"input/decoder.rs PacketGroup")],["Ok/Err value of InputProcessor::process"])
p("C04","Only packets with a valid signature are ever used",
 "A received packet contributes to a delivered message only if the receiver's verifier accepts its signature over that packet's exact metadata and payload; otherwise it is rejected as having an invalid signature and leaves the receiver's state as if it had never arrived. Every packet a sender emits carries the signer's signature over its own metadata and payload, so a matching verifier accepts it, while changing any bit of id, position, final marker, encryption information, payload or signature makes a keyed verifier reject it.",
 ["inputs","histories","configurations"],"every packet byte string, every verifier, every receiver state, every single-field alteration",
 "Tests check one good and one bad signature with noop or closure authenticators.",
 [W+"input/mod.rs",W+"packet.rs",W+"output/encoder.rs","src/core/transport/auth/impls.rs","src/core/transport/auth/digest.rs"],
 [("verification before the packet reaches the decoder",W+"input/mod.rs InputProcessor::process, verify_packet"),("signed content = metadata followed by payload",W+"packet.rs Packet::content_for_signature; "+W+"output/encoder.rs make_new_packet"),("HMAC sign/verify","src/core/transport/auth/digest.rs")],
 None,["Err(InvalidPacketSignature) and later deliveries"])
p("C05","Ciphers round-trip and reject missing or wrong-size nonces without panicking",
 "For each of the six AES ciphers and the plain pass-through, decrypting what was encrypted with the same key and associated data yields the original bytes for every input, and associated data newly generated for encryption is always usable by that cipher and carries a nonce of the size it needs. Absent associated data is reported as a missing nonce and a nonce of the other size as a nonce of the wrong size, for encryption and decryption alike, and nothing panics. A wrong key, a wrong nonce or an altered ciphertext makes an AES cipher's decryption fail rather than return other bytes.",
 ["inputs","configurations"],"every plaintext, key, nonce of either size or none, and ciphertext, for every cipher",
 "Tests encrypt one short literal per cipher with a valid nonce.",
 [C+"aes/aes_gcm_128.rs",C+"aes/aes_gcm_256.rs",C+"aes/aes_gcm_siv_128.rs",C+"aes/aes_gcm_siv_256.rs",C+"aes/aes_siv_128.rs",C+"aes/aes_siv_256.rs",C+"mod.rs",C+"nonce/mod.rs",C+"noop.rs"],
 [("nonce presence and size validation before use",C+"nonce/mod.rs validate_nonce_size; "+C+"aes/*.rs encrypt/decrypt"),("fresh associated data",C+"aes/*.rs new_encrypt_associated_data")],None,["Encrypter/Decrypter results"])
p("C06","With nonce caching on, a remembered nonce is refused",
 "While nonce caching of capacity N is enabled, any encryption or decryption whose nonce is among the N most recently accepted distinct nonces fails with a nonce-already-used error naming that nonce and does not reach the underlying cipher; any other nonce is accepted, remembered, and passed on with data and result unchanged. Operations without a nonce, and a cache of size zero, are passed through untouched; clones share one memory.",
 ["histories","inputs","configurations","schedules"],"every sequence of encrypt and decrypt calls with nonces of either size or none, every capacity, across clones and threads",
 "Tests use capacity one and two calls.",
 [C+"nonce/cache.rs"],
 [("membership test and insertion before delegation",C+"nonce/cache.rs register_nonce"),("bounded recency cache",C+"nonce/cache.rs LruCache")],
 [("cache","most recently accepted nonces, shared by clones",C+"nonce/cache.rs NonceCacheBicrypter.cache")],["Encrypter/Decrypter results"])
p("C07","Incomplete messages are dropped once expired, and never before",
 "A value with a time-to-live counts as expired exactly when at least that much time has passed since it was created or last touched, and its identity (equality, hashing, ordering) depends only on the value. When a receiver handles a valid packet, every incomplete message whose time-to-live has passed is forgotten first and every other one is kept intact, so an expired partial message can never be completed by later packets and a live one can always be.",
 ["histories","inputs","configurations"],"every set of partially received messages, every time-to-live (including zero and the maximum), every arrival time",
 "Tests manipulate one timestamp and one group.",
 ["src/utils/ttl.rs",W+"input/decoder.rs",W+"input/mod.rs"],
 [("expiry predicate","src/utils/ttl.rs TtlValue::has_expired/touch"),("purge on every accepted packet",W+"input/decoder.rs Decoder::remove_expired; "+W+"input/mod.rs process")],
 [("last touched","time of creation or last touch","src/utils/ttl.rs TtlValue.last_touched")],["has_expired; delivery by InputProcessor::process"])
p("C08","An open file is readable or changeable only with its current signature",
 "Reading, writing, renaming or removing an open remote file succeeds only if the caller presents the file's current signature; with any other signature the operation fails with a signature-mismatch error and neither the file's contents, its path nor its signature changes. A successful write, rename or removal replaces the signature (returning the new one where it returns one) and has exactly the requested effect: the contents become exactly the given bytes, or the file is at the new path only, or it is gone. A successful read returns the entire current contents and leaves the signature unchanged.",
 ["histories","inputs"],"every sequence of read, write, rename and remove with every presented signature, every content, and every earlier file size and offset",
 "Tests try one wrong signature per operation on fresh files.",
 [S+"fs/file.rs",S+"action/handler/fs.rs"],
 [("signature comparison before the effect and regeneration after it",S+"fs/file.rs LocalFile::{read_all,write_all,rename,remove}")],
 [("signature","random token identifying the file's version",S+"fs/file.rs LocalFile.sig")],["LocalFile results; file system contents; replies to file requests"])
p("C09","Path operations never disturb files that are open",
 "Renaming or removing a file or directory by path is refused as busy while that file, or any file inside that directory, is open; nothing on disk changes in that case and the set of open files is unchanged. A file or directory that merely shares a name prefix with an open one is not affected by it, and once nothing inside is open the operation is carried out on disk or reports the operating system's error.",
 ["histories","inputs"],"every set of open files (including files renamed while open) and every path operation, with absolute, relative and non-normalised paths",
 "Tests open at most one file and use canonical absolute paths.",
 [S+"fs/mod.rs",S+"fs/dir.rs"],
 [("guard on open files under a path",S+"fs/mod.rs check_no_open_files, FileSystemManager::{rename_file,remove_file,rename_dir,remove_dir}"),("path normalisation",S+"fs/mod.rs clean_path")],
 [("open files","open file per handle id",S+"fs/mod.rs FileSystemManager.files")],["FileSystemManager results; file system"])
p("C10","Opening the same file yields one shared handle; closing needs its signature",
 "At most one open file exists per path: opening a path already open returns the same id and signature and the file ends up with every access it had plus every access newly requested, while opening any other path creates a new id and leaves other open files alone. Closing succeeds only with the id and current signature of an open file, after which that id is unknown; otherwise it fails and nothing changes. After an open file is removed through its handle it no longer counts as open.",
 ["histories","inputs"],"every sequence of open, close, rename and remove over every combination of paths and access modes",
 "Tests open one path twice with one combination of access modes.",
 [S+"fs/mod.rs",S+"fs/file.rs",S+"action/handler/fs.rs"],
 [("lookup by canonical path and access merge",S+"fs/mod.rs FileSystemManager::open_file"),("signature-checked close",S+"fs/mod.rs FileSystemManager::close_file")],
 [("open files","open file per handle id",S+"fs/mod.rs FileSystemManager.files")],["FileSystemManager results; replies to file requests"])
p("C11","Idle files and processes are reclaimed exactly when their lifetime passes",
 "A cleanup pass closes every open file and kills and forgets every process whose lifetime since its last use has passed, and touches no others; an exited process uses the separate lifetime for dead processes. Any request that names a file or process counts as a use and restarts its lifetime; requests that name another one do not.",
 ["histories","configurations","inputs"],"every set of tracked files and processes, every age, every lifetime setting, every order of uses and cleanup passes",
 "Tests cover single-entry cases of each cleanup function.",
 [S+"state.rs",S+"action/handler/fs.rs",S+"action/handler/proc.rs"],
 [("eviction of expired ids",S+"state.rs ServerState::{evict_files,evict_procs}"),("touch on use",S+"state.rs touch_file_id/touch_proc_id; handlers")],
 [("tracked ids","ids with last-use time",S+"state.rs ServerState.file_ids/proc_ids")],["server replies after a cleanup pass"])
p("C12","Every request gets exactly one matching reply addressed to it",
 "The server answers each well-formed request message with exactly one reply message whose parent header is the request's header and whose kind is the one that belongs to the request kind, or an error reply describing why it failed; the operation carried out is the requested one with the requested arguments. Messages that are not requests produce no reply.",
 ["inputs","histories"],"every request kind with every argument, in every server state",
 "Tests route some of the request kinds, once each, in a fresh state.",
 [S+"action/mod.rs",S+"action/handler/fs.rs",S+"action/handler/proc.rs",S+"action/handler/version.rs",S+"action/handler/heartbeat.rs",S+"action/handler/capabilities.rs","src/core/msg/mod.rs","src/core/msg/content/mod.rs"],
 [("dispatch over request kinds",S+"action/mod.rs Executor::route_and_execute"),("reply addressed with the request header",S+"action/mod.rs execute; src/core/msg/mod.rs Msg::with_parent")],None,["messages on the wire"])
p("C13","Batches and sequences report one result per operation, in order",
 "A batch request yields one reply per contained operation in the same order, each as if it had been requested alone, regardless of other failures. A sequence runs its operations one at a time in order, reports one reply per operation, and after the first error reply runs nothing further and reports every remaining operation as failed. Nesting deeper than the allowed depth is reported as an error instead of being executed.",
 ["inputs","programs","histories"],"every list of operations, nested to any depth, with any operations failing",
 "Tests use two or three operations and one nesting level.",
 [S+"action/mod.rs","src/core/msg/content/request/transform.rs"],
 [("sequence loop with abort flag and batch join",S+"action/mod.rs sequence/batch handling"),("depth limit",S+"action/mod.rs route_and_execute")],None,["sequence and batch replies"])
p("C14","A reply reaches exactly the request that asked for it",
 "A client hands each reply to the one outstanding request whose header id equals the reply's parent id, at most once, and to no other; replies without a parent or with an unknown or already answered parent are ignored. A request whose reply never arrives ends in a timeout and leaves other outstanding requests untouched.",
 ["histories","schedules","inputs"],"every interleaving of outstanding requests, replies, duplicates, strays and timeouts",
 "Tests cover a callback map with one entry.",
 ["src/utils/callback.rs","src/core/client/inbound.rs","src/core/client/connected.rs","src/core/client/mod.rs"],
 [("one-shot callback map","src/utils/callback.rs CallbackManager::{add_callback,invoke_callback}"),("dispatch by parent header id","src/core/client/inbound.rs")],
 [("callbacks","pending callback per request id","src/utils/callback.rs CallbackManager.callbacks")],["result of ask"])
p("C15","Client calls never mistake an error or foreign reply for success",
 "Each typed client call returns success only when the server's reply is of the kind belonging to that call, and then returns exactly the values in that reply; a file call refreshes the caller's file signature exactly when the reply carries a new one for it. A general error reply surfaces as a failure carrying the server's description, an I/O error reply as the I/O error it describes, a changed-signature reply as a changed-signature error, and any other reply as an invalid response.",
 ["inputs"],"every client call combined with every kind of reply and every reply payload",
 "Tests mock one or two replies per call.",
 ["src/core/client/connected.rs","src/core/client/error.rs","src/core/client/mod.rs","src/core/client/file.rs"],
 [("reply matching per call","src/core/client/connected.rs ask_*"),("error mapping","src/core/client/error.rs")],None,["results of ConnectedClient::ask_*"])
p("C16","Process output is delivered exactly once, in order, with the true exit status",
 "The concatenation of all stdout (and likewise stderr) reads of a remote process is always a prefix of what the process wrote, with nothing lost, repeated or swapped between the two streams, and becomes everything it wrote once it has exited and been read to the end. Bytes written to its stdin reach it in order. Its reported status is running until it exits, and afterwards carries its exit code and reports success exactly when the process succeeded.",
 ["histories","inputs","schedules"],"every process output, every pattern of reads and writes, every exit code or killing signal",
 "The process tests are few, use echo and cat, and are excluded from the stable set.",
 [S+"proc.rs",S+"action/handler/proc.rs"],
 [("drain of collected output",S+"proc.rs LocalProc::{read_stdout,read_stderr}"),("io loops",S+"proc.rs spawn"),("exit status",S+"proc.rs ExitStatus")],
 [("output buffers","collected but unread output",S+"proc.rs LocalProc")],["replies to process requests; LocalProc results"])
p("C17","I/O errors keep their kind and description across the wire",
 "An I/O error on the server that carries a kind and a description arrives at the client with the same kind and the same description; every error kind the format can name survives the trip unchanged, distinct kinds stay distinct, and any kind it cannot name arrives as the generic other kind.",
 ["inputs"],"every error kind, OS error and description",
 "Tests serialize each known kind once in one direction but not the whole conversion chain.",
 ["src/utils/serializers/error_kind.rs","src/utils/serializers/io_error.rs","src/core/msg/content/reply/io/mod.rs"],
 [("kind mapping both ways","src/utils/serializers/error_kind.rs"),("error argument conversion","src/core/msg/content/reply/io/mod.rs IoErrorArgs")],None,["io::Error values at the client"])
p("C18","Malformed traffic never stops a receive loop",
 "A receive step that gets no complete message, a malformed packet, a packet failing verification or decryption, or a packet that decodes to something other than a message continues the loop and hands nothing to the application; only an I/O error of the transport itself (or the other side closing the stream) ends it. Each complete valid message is handed on exactly once together with its sender's address.",
 ["inputs","histories","fault_sequences"],"every sequence of received byte strings and transport errors",
 "Tests check none of the loop's error branches with real wires.",
 ["src/core/event/mod.rs","src/core/event/tcp.rs","src/core/event/udp.rs",W+"input/mod.rs","src/core/msg/mod.rs"],
 [("classification of wire results","src/core/event/mod.rs process_inbound")],None,["messages handed on; whether the loop continues"])
p("C19","Keys, nonces and digests are accepted from bytes exactly at their sizes",
 "Converting a byte slice to a key, nonce or digest succeeds exactly when the slice has one of the supported lengths, selects the variant of that length, and keeps every byte in order, so reading the bytes back gives the input; any other length is rejected without panicking. The size reported for each kind equals the number of bytes it holds.",
 ["inputs"],"every byte slice of every length",
 "Tests try few lengths and constant bytes.",
 [C+"key.rs",C+"nonce/mod.rs","src/core/transport/auth/digest.rs"],
 [("length dispatch",C+"key.rs Key::from_slice; "+C+"nonce/mod.rs Nonce::from_slice")],None,["from_slice / as_slice results"])
p("C20","Delimited stream reading recovers exactly the chunks that were written",
 "For chunks that do not contain the delimiter and fit the reader's maximum size, reading a stream of delimiter-terminated chunks returns each chunk's bytes exactly, in order and once, however the underlying reads split the stream. Bytes of later chunks that arrive early are kept for later reads, and no way of splitting the stream causes a panic.",
 ["inputs","histories","fault_sequences"],"every chunk list, delimiter, buffer size and every split of the byte stream into reads, including failing and empty reads",
 "Tests feed a few fixed splits.",
 ["src/utils/delimiter.rs"],
 [("buffer scan and shift","src/utils/delimiter.rs DelimiterReader::{pre_read,post_read}")],
 [("buffer","bytes read but not returned, and scan position","src/utils/delimiter.rs DelimiterReader.buf/buf_pos/buf_filled")],["DelimiterReader::read results"])
S2={
"C01":"Whatever bytes one side sends as a message (up to 4 GiB), the packets it produces make a side holding the matching signature and cipher settings deliver exactly those bytes, exactly once, when the last missing packet arrives within the time-to-live and not before. This holds for every order in which the packets arrive, for every transmission size large enough to send at all, and however packets of messages with other ids are interleaved. An empty message is delivered as an empty message.",
"C04":"A received packet contributes to a delivered message only if the receiver's verifier accepts its signature over that packet's exact metadata and payload; otherwise it is rejected as having an invalid signature and leaves the receiver's state as if it had never arrived. Every packet a sender emits carries the signer's signature over its own metadata and payload, so a matching verifier accepts it, while changing the id, position, final marker, encryption information, payload or signature it carries makes a verifier holding a key reject it.",
"C05":"For each of the six AES ciphers and the plain pass-through, decrypting what was encrypted with the same key and associated data yields the original bytes for every input, and associated data newly generated for encryption is always usable by that cipher and carries a fresh nonce of the size it needs. For the AES ciphers, absent associated data is reported as a missing nonce and a nonce of the other size as a nonce of the wrong size, for encryption and decryption alike; the pass-through accepts both; nothing panics. A wrong key, a wrong nonce or an altered ciphertext makes an AES cipher's decryption fail rather than return other bytes.",
"C06":"While nonce caching of capacity N is enabled, any encryption or decryption whose nonce is among the N most recently accepted distinct nonces fails with a nonce-already-used error naming that nonce, does not reach the underlying cipher and changes nothing; any other nonce is accepted and remembered, whether or not the cipher then succeeds, and the operation is passed on with data and result unchanged. Operations without a nonce, and a cache of size zero, are passed through untouched. Clones share one memory, so of several operations racing with one nonce exactly one is accepted.",
"C09":"Renaming or removing a file or directory by path is refused, with an error saying that it has to be closed first, while that file, or any file inside that directory, is open; nothing on disk changes in that case and the set of open files is unchanged. A file or directory that merely shares a name prefix with an open one is not affected by it, and once nothing inside is open the operation is carried out on disk or reports the operating system's error.",
"C10":"As long as no open file is renamed onto the path of another, at most one open file exists per path: opening a path already open returns the same id and signature and the file ends up with every access it had plus every access newly requested, while opening any other path creates a new id and leaves other open files alone. Closing succeeds only with the id and current signature of an open file, after which that id is unknown; otherwise it fails and nothing changes. After an open file is removed through its handle it no longer counts as open.",
"C11":"A cleanup pass closes every open file and kills and forgets every process whose lifetime since its last use has passed, and touches no others; a status query that finds the process exited restarts its lifetime with the separate lifetime for dead processes. Any other request that names a file or process counts as a use and restarts its ordinary lifetime; requests that name another one do not.",
"C12":"The server answers each well-formed request message with exactly one reply message whose parent header is the request's header and whose kind is the one that belongs to the request kind, or an error reply describing why it failed; the operation carried out is the requested one with the requested arguments. Messages that are not requests produce no reply, and neither does a forward request or a custom request for which the server has no handler.",
"C13":"A batch request yields one reply per contained operation in the same order, each as if it had been requested alone, regardless of other failures; a contained operation that gets no reply when requested alone is reported as an error. A sequence runs its operations one at a time in order, reports one reply per operation, and after the first error reply runs nothing further and reports every remaining operation as failed. Nesting deeper than the allowed depth is reported as an error instead of being executed.",
"C17":"An I/O error without an operating-system code arrives at the other side with the same kind and the same description, and one with such a code arrives as the operating-system error of that code. Every error kind the format can name survives the trip unchanged, distinct kinds stay distinct, and any kind it cannot name arrives as the generic other kind.",
"C20":"For chunks that are not empty, fit the reader's maximum size and are followed by the delimiter at its first occurrence, reading a stream of such delimiter-terminated chunks returns each chunk's bytes exactly, in order and once, however the underlying reads split the stream. Bytes of later chunks that arrive early are kept for later reads, a read that brings nothing or fails loses nothing, and no way of splitting the stream causes a panic.",
}
for x in P:
    x['statement']=S2.get(x['id'],x['statement'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
