import json
P=[]
def p(id,title,stmt,over,text,why,files,syms=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,**({"symbols":syms} if syms else {}))))
p("C01","Only hash-verified data is ever accepted, served or published",
"A piece is reported complete (bitfield, piece status, HAVE/BITFIELD on the wire) only if the bytes stored for it match the piece's SHA-1 in the metainfo. Every block returned for reading or sent to a peer, and every byte of the published target file(s), equals the torrent's content. This holds whatever blocks peers supply, in whatever order, and across failed attempts and retries.",
["schedules","inputs","histories","fault_sequences"],
"every interleaving of concurrent block writers, readers and retries, every corrupt/duplicate/overlapping/late block supplied by any peer, every disk fault",
"Existing tests write correct blocks only, in order, without faults; nothing tests a wrong block, a retry after a checksum failure, or corruption arriving while another peer fetches the same piece.",
["storage/storage.go","storage/torrent.go","p2p/peer.go"])
p("C02","A crash never loses acknowledged pieces or resurrects bad data",
"After the process is killed or the machine loses power at any point, opening the same directories again succeeds, reports exactly pieces whose stored bytes match their hash, and lets the download be completed to the exact content. A piece that was reported complete before a process kill is still complete afterwards (unless it became part of the finished download, which then still exists). Left-over temporary or damaged work files never count as data and never stop loading.",
["crash_points","histories","fault_sequences"],
"process kill and power loss (lost, torn and reordered un-synced writes) at every file-system call of every operation, repeated crashes included",
"The reload tests restart only from cleanly written states; no test crashes inside an operation or loses un-synced writes.",
["storage/storage.go","storage/torrent.go"])
p("C03","The finished download is published atomically and exactly",
"The target name either does not exist or is the complete torrent: every file with exactly its declared length and content (single- or multi-file, any layout of file boundaries against pieces, empty files included). At no instant, under any error or crash, is a partial or wrong target visible. Once published the working data of that torrent is removed and blocks are served from the target.",
["crash_points","fault_sequences","inputs","schedules"],
"every file layout, every point of assembling and publishing, every I/O error, short write, full disk or crash during it",
"Tests look at the target only after a successful run with a few fixed layouts.",
["storage/storage.go","storage/lazy_file_reader.go"])
p("C04","Concurrent storage calls never deadlock, crash or contradict each other",
"Any mix of concurrent writes, reads, retries and status waits terminates without panic, and the results are those of some sequential order: each block of an attempt is accepted at most once, reads succeed exactly for completed pieces, every waiter on a piece or on the torrent is released with the outcome. A failed attempt (bad hash or I/O error) is reported to whoever waits for it and leaves the piece retryable; an I/O failure while assembling the finished download does not prevent finishing later.",
["schedules","histories","fault_sequences"],
"every interleaving of callers at statement granularity, with and without disk errors",
"The concurrency test runs one schedule of error-free disjoint writers; it never overlaps readers of one piece with writers of the same piece, resets or failures.",
["storage/storage.go","storage/torrent.go","future/future.go"])
p("C05","A download completes once enough of the swarm behaves",
"If, after some moment, faults stop and every missing piece is held by at least one reachable peer that unchokes and answers requests, the client finishes the download within bounded time. Earlier choking, disconnections, resets, unanswered requests, failed dials, bad data from other peers or failed announces do not stall it forever; a peer that dropped the connection and is listed again by the tracker is contacted again.",
["schedules","fault_sequences","configurations","histories"],
"all swarm layouts, choke/unchoke/disconnect/partition sequences, message delays and interleavings that leave each piece reachable",
"There is no test of the p2p package at all; progress depends on the interleaving of goroutines, queues and timeouts.",
["p2p/server.go","p2p/peer.go"])
p("C06","No peer can crash, freeze or exhaust the client",
"Whatever bytes a remote peer sends (truncated, oversized, unknown, out-of-range or out-of-order messages), and however slowly it reads or writes, the client does not panic, does not allocate memory in proportion to a claimed size it has not received, and keeps serving and downloading from its other peers.",
["inputs","fault_sequences","schedules"],
"every byte stream and timing of hostile peers mixed with honest ones",
"Message tests decode a handful of valid messages; nothing feeds malformed streams to a running client or stalls a connection.",
["p2p/peer.go","p2p/server.go","api/peer/peer.go","bitfield/bitfield.go","storage/storage.go"])
p("C07","Only the peer that supplied a corrupt piece is cut off",
"When a piece fetched from a peer fails its hash check, that peer is disconnected, the address it was dialled at is not dialled again in that run, and the piece is fetched again from another peer. A peer that answered requests with correct data is never blocked for corruption caused by another peer.",
["schedules","inputs","histories"],
"every mix of corrupting and honest peers, including unsolicited and late blocks, and every interleaving",
"No test covers a checksum failure or blocking.",
["p2p/server.go","p2p/peer.go","storage/storage.go"])
p("C08","Uploads are exact, solicited and accounted",
"Every block sent to a peer was requested by that peer on that connection with exactly that index, offset and length, while the client had it unchoked and held the piece, and it carries exactly those bytes. Each request is answered at most once, and a valid request from an unchoked peer on a healthy connection is eventually answered. The uploaded total counts exactly the payload bytes of blocks sent.",
["schedules","inputs","histories"],
"every sequence of requests, cancels and disconnects from several peers, every block geometry",
"No test serves a block to a peer.",
["p2p/peer.go","p2p/server.go","storage/storage.go"])
p("C09","Peers are told exactly what we hold",
"On every established connection the first message after the handshake is a bitfield of the right size with exactly the held pieces and zero spare bits. Each piece completed afterwards is announced by HAVE to every peer connected at that time that was not already told by its bitfield, within bounded time and regardless of other peers' failures. No piece not held is ever announced.",
["schedules","fault_sequences","histories"],
"every interleaving of connects, disconnects, slow peers and piece completions",
"No test; a lost announcement needs a connection to appear or fail at a particular moment.",
["p2p/server.go","p2p/peer.go","bitfield/bitfield.go","api/peer/peer.go"])
p("C10","The connection table stays consistent and bounded",
"At most one connection per remote peer (peer id and IP) is established at a time, never more than 50 in total, never to the client itself, to another torrent's swarm or to a peer whose id differs from the one the tracker named; every refused or finished connection is closed promptly and its slot becomes available again. After any sequence of failed dials, bad handshakes, refusals and disconnects a new honest peer can still connect.",
["schedules","histories","fault_sequences"],
"every sequence and interleaving of inbound and outbound connections, duplicates, refusals and failures",
"No test opens a connection.",
["p2p/server.go","p2p/peer.go"])
p("C11","Tracker failover follows the tiers and never stops the client",
"Each announce tries trackers tier by tier in order, inside a tier in its current order, stops at the first success, and moves that tracker to the front of its tier; all trackers of a torrent remain in their tier. A tracker that is unreachable, silent, slow, or answers with an error, a failure reason or garbage is skipped, and never crashes the client or ends the download; announces continue periodically. Each request goes to the URL the torrent lists: its host, path and query (which may hold a user's key) are kept.",
["fault_sequences","inputs","histories","schedules"],
"every layout of tiers and every sequence of per-tracker outcomes and response bytes",
"There is no multitracker test; the order kept after several mixed failures and successes is a history property.",
["p2p/multitracker.go","p2p/server.go","api/tracker/tracker.go"])
p("C12","Announces report the true state",
"Every announce carries the torrent's info hash, the client's peer id and port, left equal to the bytes of pieces not yet held (zero exactly when complete, for single- and multi-file torrents, also after a restart), and uploaded/downloaded totals that never decrease and match the payload transferred. The first announce of a run is started, and when the client stops after a successful start it announces stopped once and nothing after it.",
["schedules","crash_points","histories"],
"every history of completed/failed pieces, restarts and interleavings of announce with transfer and stop",
"No test reads announced values from a running client.",
["p2p/multitracker.go","storage/storage.go","p2p/server.go"])
p("C13","The built-in tracker returns exactly the live peers",
"Every valid announce is answered with a well-formed response listing exactly the other peers of that torrent that announced within the last minute and whose last event was not stopped, each once, at its announced IP and port with its latest peer id (IP and port tell peers apart), in the requested format (compact lists IPv4 peers only). Invalid announces (unknown torrent, bad IP, port outside 1-65535, malformed numbers) get a failure and change nothing. This holds under concurrent announces and while expired peers are being removed.",
["schedules","histories","inputs"],
"every history and interleaving of announces over several torrents, expiry times and formats",
"There is no pex test; expiry and concurrency depend on time and schedule.",
["pex/http.go","api/tracker/tracker.go","bencode/encode.go"])
p("C14","Stopping always works and leaves nothing behind",
"Whenever and however often the client is stopped after starting (before, during or after downloads, with stalled peers or trackers), stopping returns in bounded time, the blocked start call returns, the listening port and all peer connections are closed, and the client's goroutines end; once stopping has returned the client writes nothing more to its directories. A new client can be started on the same port and directories and carry on.",
["schedules","fault_sequences","histories"],
"every point of the client's life at which stop is called, every state of peers and trackers",
"No test starts or stops a server; leaks and hangs depend on what is in flight.",
["p2p/server.go","p2p/peer.go","p2p/multitracker.go"])
p("C15","Wire messages are framed intact and parsed independently of fragmentation",
"The byte stream a client sends on a connection is always a handshake followed by whole well-formed messages, even when several goroutines send at once or a write is partial. However the incoming stream is split into reads, it is parsed into the same messages; a stream that ends or fails inside a message gives an error and never a message.",
["schedules","inputs","fault_sequences"],
"every fragmentation of every message sequence, every truncation or error offset, every interleaving of senders",
"Tests encode and decode single messages from complete buffers.",
["api/peer/peer.go","p2p/peer.go"])
p("C16","Bencode streaming does not depend on how bytes arrive",
"Decoding from a stream gives the same value or error however the bytes are split into reads, and consecutive values on one stream decode one after another. Truncated or failing input always gives an error, never a value, a panic, or memory use out of proportion to the bytes received. Encoding to a failing writer reports the error.",
["inputs","fault_sequences"],
"every document, every fragmentation, truncation and error offset, every failing write",
"Tests decode complete in-memory strings.",
["bencode/decode.go","bencode/encode.go"])
p("C17","Requests are disciplined",
"The client requests a block from a peer only while that peer has it unchoked, has announced the piece, and the client does not hold the piece; interest is declared first. Requests are exactly the 16 KiB grid of the piece (shorter last block), at most 16 are outstanding per piece fetch, and no piece is being fetched from two peers at the same time.",
["schedules","histories"],
"every interleaving of announcements, chokes, completions and retries over all piece geometries",
"No test drives the request loop.",
["p2p/server.go","p2p/peer.go","storage/torrent.go"])
p("C18","Pieces are picked rarest first",
"When the client starts fetching a piece from a peer, that piece is, among the pieces that peer offers which are neither held nor being fetched, one that the fewest connected peers have announced.",
["schedules","histories","configurations"],
"every availability distribution over connected peers, including departures",
"No test covers piece selection.",
["p2p/server.go"])
p("C19","A torrent cannot write outside its directories",
"Whatever names and paths a torrent declares (absolute, parent references, empty or separator-containing components), and whatever its peers send, the client creates, changes or removes nothing outside the given target and work directories, and never replaces or removes pre-existing data that is not its own; such torrents are refused with an error rather than a panic.",
["inputs","histories"],
"every torrent name and file path, every sequence of storage operations on it",
"Tests use harmless names only.",
["storage/storage.go","storage/torrent.go","api/metainfo/metainfo.go"])
p("C20","Shared state is never accessed without synchronisation",
"No execution of the client or of the built-in tracker contains two concurrent unsynchronised accesses, at least one a write, to the same memory, so results never depend on torn or stale values and the runtime never aborts for concurrent map use.",
["schedules"],
"every interleaving of the client's goroutines under peers, trackers and storage activity",
"The few concurrent tests are not run under a race detector and cover storage only; the server is never run at all.",
["p2p/server.go","p2p/peer.go","p2p/multitracker.go","storage/storage.go","storage/torrent.go","pex/http.go"])
p("C21","Bencode values survive a round trip",
"Decoding the encoding of any supported value gives the value back, and encoding is canonical (sorted keys, minimal integers).",
["inputs"],"every supported value","Tests sample fixed values.",["bencode/encode.go","bencode/decode.go"])
p("C22","Metainfo and magnet parsing extract the declared fields",
"Parsing a metainfo file or magnet link yields the declared fields, and the info hash is the SHA-1 of the info dictionary exactly as it appears in the file.",
["inputs"],"every metainfo file and magnet link","Tests parse a few fixtures.",["api/metainfo/metainfo.go","api/magnet/magnet.go"])
p("C23","Tracker requests and bitfields encode and decode losslessly",
"Decoding an encoded tracker request gives the request back, and bitfield membership, listing and difference agree with set semantics.",
["inputs"],"every request and bitfield","Tests sample fixed values.",["api/tracker/tracker.go","bitfield/bitfield.go"])
p("C24","Every peer that wants data is served",
"A connected peer that is interested and keeps to the protocol is unchoked within bounded time (two minutes at most), however slow or hostile other peers are, and can then download every piece the client holds, over the whole life of the client: while it is downloading, once the download is published and after faults. A new peer that connects later is served just the same.",
["schedules","fault_sequences","histories"],
"every state of the other connections and of the storage, every time a peer connects or declares interest",
"No test connects a peer to a server.",["p2p/server.go","p2p/peer.go","storage/storage.go"])
p("C25","No useful peer is left idle",
"While pieces are missing, every connected well-behaved peer that has announced one of them is told within bounded time that the client is interested; and when such a peer has the client unchoked, then within bounded time (a minute) either it is asked for a missing piece, or all missing pieces it offers are being asked of other peers. Chokes, timeouts, failed attempts and other peers' faults in between do not make the client forget a peer.",
["schedules","fault_sequences","histories"],
"every sequence of choke, unchoke, have, timeout, failure and disconnection on any of the connections",
"No test runs the request scheduler.",["p2p/server.go","p2p/peer.go"])

p("C26","Resources are released",
"What the client acquires for a peer, a transfer or a piece it gives back. While it works, the number of files it holds open stays bounded by what its current calls need; when no call is running, no file is open. When peers leave, crash, vanish or are refused, their goroutines, connections and table slots are gone within five minutes, however the connection ended and whatever was in flight, and nothing keeps referring to them. The built-in tracker forgets peers that no longer announce. The data of a piece that is complete does not stay in memory.",
["schedules","fault_sequences","histories"],
"every way in which a connection, a transfer, a read or a piece can end (error, timeout, choke, cut, crash, success), in every interleaving",
"No test counts goroutines, descriptors or memory, and leaks come from error paths and lost races.",["p2p/server.go","p2p/peer.go","storage/storage.go","storage/torrent.go"])
p("C27","The client is gentle with trackers and peers",
"The requests that a client makes to any one tracker, the stopped event excepted, are never closer together than the interval that the last answered announce asked for (a default applies before the first and for nonsensical values), whatever failed before or in between; after Stop only the stopped event is announced. An address is dialled at most once for each time a tracker lists it, and is never dialled while a connection that was dialled to it is still open.",
["schedules","fault_sequences","histories"],
"every sequence of answers, failures, intervals, connection ends and repeated listings",
"No test runs the announce loop or the dialler over time.",["p2p/server.go","p2p/multitracker.go"])
p("C28","Healthy connections are kept",
"An established connection with a peer that keeps to the protocol (sends at least a keep-alive every two minutes, reads what it is sent and supplies correct data) stays open until the peer or the client leaves: unless its own storage fails the client does not close it, whatever happens with other peers or trackers, however long neither side has anything to ask for, and although requests on it were refused or timed out; and it never lets two minutes pass without sending anything on it, so that the peer has no reason to close it. Two clients that both upload and download keep reading while they write.",
["schedules","fault_sequences","histories"],
"every history of a connection: idle or busy, chokes, timeouts, refused duplicates, other peers' faults, long quiet times",
"No test keeps a connection for minutes, and what closes one wrongly comes from timers, duplicate connections, error paths and other peers.",["p2p/server.go","p2p/peer.go"])

MECH={
"C28":[("keep-alives, read deadline of two minutes, write deadline of 30 s","p2p.Server.KeepAlive; p2p.Peer.Receive, send"),("which errors end a connection","p2p.Server.handlePeer, requestPieceFromPeer, activate, disconnect")],
"C26":[("per-connection goroutines end with the connection's context; slots freed on disconnect","p2p.Server.Connect, disconnect, Serve; p2p.Peer.Receive"),("files closed after every read or coalesce","storage.Storage.GetBlock, coalesceBlocks, coalescePieces*; storage.lazyFileReader")],
"C27":[("announce timer with the interval of the last response","p2p.Server.announceAtInterval, handleResponse, Announce"),("dial queue and known addresses","p2p.Server.AddPeer, DialPeers")],
"C24":[("periodic unchoking of every choked peer, in parallel","p2p.Server.UnchokePeers, every"),("serving requests from piece files or the published target","p2p.Peer.HandleRequest; storage.Storage.GetBlock")],
"C25":[("per-peer request loop with requeue","p2p.Server.requestPieceFromPeer, requeue, queuePeer, notInterest; p2p.Peer.HandleHave")],
"C01":[("SHA-1 check before a piece file is renamed into place","storage.Storage.coalesceBlocks"),("block grid check","storage.checkBlockSize"),("completion sets bitfield","storage.Torrent.completePiece")],
"C02":[("temp file + rename per piece; reload scan of the work directory","storage.Storage.Load, coalesceBlocks")],
"C03":[("assemble in temp, single rename to the target name","storage.Storage.coalescePiecesForSingleFile, coalescePiecesForMultiFile"),("file-boundary arithmetic for reads","storage.Storage.getBlockFromMultiFile"),("lazy piece readers","storage.lazyFileReader")],
"C04":[("piece and torrent RW mutexes, futures","storage.Storage.PutBlock, GetBlock, ResetPiece; storage.Piece; future.Future")],
"C05":[("per-peer fetch loop, 5 s requeue, 10 s block timeout, reset+retry","p2p.Server.requestPieceFromPeer, RequestPieces, QueuePeer; p2p.Peer.requestPiece"),("peer discovery","p2p.Server.AddPeer, DialPeers, Announce")],
"C06":[("message decoding","api/peer.Message.Decode"),("dispatch","p2p.Peer.HandleMessage"),("read deadline","p2p.Peer.Receive")],
"C07":[("block on ChecksumError","p2p.Server.Block, requestPieceFromPeer"),("block-to-request matching","p2p.Peer.Receive, HandlePiece")],
"C08":[("request handling and choke check","p2p.Peer.HandleRequest, HandleCancel; storage.Storage.GetBlock")],
"C09":[("bitfield on connect, HAVE broadcast","p2p.Server.Connect, requestPiece")],
"C10":[("activePeers table and 50-slot semaphore","p2p.Server.Connect, Serve, DialPeers, Disconnect; p2p.Peer.Handshake")],
"C11":[("tier loop with promotion","p2p.Multitracker.get"),("request/response","p2p.Tracker.get; api/tracker.Response")],
"C12":[("announce fields","p2p.Tracker.get"),("downloaded accounting","storage.Storage.Downloaded; p2p.Server.Uploaded, Downloaded")],
"C13":[("peer table with expiry","pex.HTTP.ServeHTTP, NewHTTP")],
"C14":[("context cancellation and connection teardown","p2p.Server.Stop, Start")],
"C15":[("per-connection write mutex","p2p.Peer.Send"),("length-prefixed framing","api/peer.Message.Encode, Decode; Handshake.Encode, Decode")],
"C16":[("buffered streaming decoder","bencode.Decoder; bencode.Encoder")],
"C17":[("inflight table, choke checks, 16-request group limit","p2p.Server.requestPieceFromPeer; p2p.Peer.requestPiece, requestBlock")],
"C18":[("sort by number of announcing peers","p2p.Server.requestPieceFromPeer, RecordIndex, disconnect")],
"C19":[("path construction","storage.Torrent.FileName, WorkDir; storage.Storage coalesce functions")],
"C20":[("mutexes and atomics","p2p.Server.mu, p2p.Peer.mu, storage.Torrent.mu, storage.Piece.mu, pex.Torrent.mu")],
"C21":[("reflection codec","bencode.Marshal, Unmarshal")],
"C22":[("unmarshalers","metainfo.Info.UnmarshalBencoding, Pieces; magnet.ParseMagnetURL")],
"C23":[("query codec, bit operations","tracker.Request; bitfield.Bitfield")],
}
for x in P: x["anchors"]["mechanism"]=[dict(name=n,where=w) for n,w in MECH[x["id"]]]
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
