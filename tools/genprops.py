#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long lines stay reviewable).
import json
INBOX="src/drivers/server/messages_inbox/stored_queue.rs"
ROUTER="src/drivers/server/router/global_table.rs"
ROUTERT="src/drivers/server/router/mod.rs"
MS="src/rest_api/middleware/server.rs"
MC="src/rest_api/middleware/client.rs"
CERT="src/rest_api/types/connection_certificate.rs"
TOK="src/rest_api/types/connection_token.rs"
MSG="src/rest_api/types/message.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","An acknowledged message is never lost",
"Once a send has been acknowledged, that message stays in the receiver's inbox and is handed out by a later poll of that receiver and channel, whatever other sends and polls run at the same time, whichever operations fail with I/O errors, are cancelled or are cut short by a server crash and restart. The only message that may disappear without having been delivered is one that was taken by a poll whose own answer was lost (the server crashed, the poll was cancelled, or the response did not arrive).",
["schedules","crash_points","histories","fault_sequences"],
"every interleaving of concurrent sends and polls on any number of inboxes and channels, every point at which a process crash, cancellation, I/O error or full disk can hit",
"the only inbox test sends five messages one after another on a healthy disk and polls them one after another; no concurrency, no failing or short write, no crash, no restart",
[INBOX,MS],[("per-channel index plus one file per message",INBOX),("send/poll handlers acknowledge after the inbox call",MS)],
["MessagesInbox::add_message/poll_messages","ConnectedClient::send/poll"],
[("index","ordered list of the ids of stored messages",INBOX),("message file","one stored message",INBOX)])
p("C02","A message is delivered at most once and exactly as it was sent",
"Each message that was sent is handed out by at most one successful poll, only messages that somebody sent are ever handed out, and each arrives with precisely the sender, channel and content it was sent with. Its reception time is a reading of the server's clock taken while that send was being processed.",
["schedules","crash_points","inputs","histories","fault_sequences"],
"every interleaving of sends and polls, crash point, I/O error, clock setting and content",
"the test reads messages once and in sequence, never polls concurrently, never crashes between handing out and removing, and never looks at sender or reception time",
[INBOX,"src/rest_api/types/message_info.rs","src/time.rs"],[("polled messages are removed from index and storage",INBOX)],
["MessagesInbox::poll_messages","ConnectedClient::poll"])
p("C03","An inbox is a FIFO queue with limits and an exact remainder",
"Every history of sends and polls on one receiver and channel is explained by some order of the operations, consistent with real time, in which the inbox is a first-in first-out queue: a poll returns the oldest stored messages in the order they were stored, no more than its limit, never fewer than the limit while messages remain, and reports exactly how many messages stay behind.",
["schedules","inputs","histories","crash_points"],
"every history of concurrent sends and polls with any limit (including 0, none and very large), with crashes, cancelled and failed operations in between",
"the test performs one sequential history with limits 1, 2 and none",
[INBOX],[("index order, limit and remainder bookkeeping",INBOX)],
["MessagesInbox::poll_messages","ConnectedClient::poll"])
p("C04","Inboxes are isolated and storage stays inside its folder",
"For any receiver and any channel name - however long or odd, including path separators, dots, NUL, empty and non-ASCII text - a poll returns only messages sent to exactly that receiver and that channel name, and an acknowledged send to that name can be polled under that same name. No operation on the inbox or the routing table ever creates, changes or deletes anything outside its own storage folder, nor interferes with another channel.",
["inputs","histories","schedules"],
"every set of receivers and channel names, including names crafted by a remote peer, in every order and interleaving",
"the test uses one receiver and two harmless channel names",
[INBOX,ROUTER,MS],[("receiver and channel are mapped to a folder",INBOX),("records are stored under the public key",ROUTER)],
["MessagesInbox::add_message/poll_messages","the file system"])
p("C05","An inbox recovers by itself once faults stop",
"After any history of crashes, restarts, cancelled operations, I/O errors and full disks, as soon as faults stop every send and every poll on every inbox succeeds again, and repeated polls drain each inbox to a remainder of zero in a bounded number of calls. No fault leaves a channel or receiver permanently unusable.",
["crash_points","fault_sequences","histories","schedules"],
"every fault sequence and crash point during sends and polls, followed by a calm period",
"no test injects a fault or restarts a server over existing storage",
[INBOX],[("index and message files are rewritten by each operation",INBOX)],
["MessagesInbox::add_message/poll_messages after faults stop"])
p("C06","The routing table reflects acknowledged updates",
"Every history of indexing, disconnecting, listing and lookup operations is explained, per public key and table, by some order consistent with real time in which a read returns exactly the record last indexed for that key (client, certificate, type, address, server) or nothing after a disconnect. Acknowledged updates survive crash and restart, and an update that did not take effect is reported as an error rather than as success.",
["schedules","crash_points","histories","fault_sequences","inputs"],
"every interleaving of updates and reads on any keys, every crash point and I/O error",
"the test indexes and looks up sequentially on a healthy disk, with identical records, and never disconnects, updates, crashes or runs two operations at once",
[ROUTER,ROUTERT,MS],[("one file per record and table",ROUTER),("default lookups filter the listing",ROUTERT)],
["Router::index_*/disconnect/local_clients/remote_clients/servers/lookup_*"],
[("local/remote/servers folders","one JSON record per public key",ROUTER)])
p("C07","One record never breaks the listing or lookup of others",
"While a record is being added, replaced or removed, and after any such operation was interrupted at an arbitrary point by a crash, cancellation or disk error, listing and lookup of all other records keep working and keep returning them.",
["schedules","crash_points","fault_sequences"],
"every interleaving of a listing with concurrent updates and removals of other records; every crash point, short write or full disk inside an update",
"no test lists while the table changes, nor after an interrupted update",
[ROUTER,ROUTERT],[("listing reads each record file in turn",ROUTER)],
["Router::local_clients/remote_clients/servers/lookup_*"])
p("C08","The newest connection certificate wins",
"When a server has accepted several announcements for a client, or holds both a connection of that client to itself and an announcement that it is connected elsewhere, its lookups return the record whose certificate carries the latest connection time, whatever the order in which they arrived, were delayed, duplicated or replayed, and across restarts. An older announcement never replaces a newer one.",
["schedules","histories","fault_sequences","inputs"],
"every arrival order, duplication, delay and concurrency of announcements with any connection times, and of the connections a client makes to the server in turn, with restarts in between",
"no test announces the same client twice or reorders announcements",
[ROUTER,MS,TOK,"src/rest_api/requests/announce/mod.rs"],[("certificate carries the connection time",TOK),("announce handler indexes remote clients",MS),("lookup handler chooses among tables",MS)],
["Router::index_remote_client/lookup_remote_client","POST /announce, /lookup"])
p("C09","Only properly authenticated requests take effect",
"A request changes a server's routing table or inboxes, or reveals inbox content, only if its proof signature verifies under the public key it names and its proof seed is a full-length number; a connect additionally needs a certificate signed by that same client for this very server, and a client announcement needs a certificate of the announced client for the announced server. Every other request - forged, mutated in transit, assembled from parts of other requests, or addressed to another server - is answered with an error of the protocol, leaves the state unchanged, and acts only on the identity that signed it.",
["inputs","histories","schedules"],
"every request an adversarial peer or network can assemble from captured and self-made material, in any interleaving with honest traffic",
"tests validate a handful of hand-made requests as values and never run the server's handlers",
["src/rest_api/request.rs",MS,CERT,"src/rest_api/requests/connect/mod.rs","src/rest_api/requests/announce/mod.rs","src/rest_api/requests/poll/mod.rs","src/rest_api/requests/send/mod.rs","src/rest_api/requests/disconnect/mod.rs","src/rest_api/requests/lookup/mod.rs"],
[("request validation",'src/rest_api/request.rs'),("certificate validation",CERT),("handlers validate before acting",MS)],
["server HTTP endpoints","routing table and inbox afterwards"])
p("C10","Clients believe only proven answers",
"A client's connect, disconnect, announce, send, poll and lookup report success only if the answer carries a valid signature on the proof seed of this very request (an info answer: on the seed it states itself), and connecting to a server with an expected public key, disconnecting and polling additionally only if that signature is by the expected (connected) server's key. Answers that are forged, replayed from another request, mutated, or signed by somebody else yield an error, an error answer is reported as an error with the status and reason it carries, and no two calls send requests with the same proof seed.",
["inputs","histories","fault_sequences"],
"every answer an impostor or man in the middle can assemble, including replays of genuine answers and genuine answers of other servers",
"tests validate hand-made responses as values; the client middleware has no test at all",
[MC,"src/rest_api/response.rs","src/rest_api/requests/info/response.rs"],[("response validation","src/rest_api/response.rs"),("middleware checks every response",MC)],
["Client::connect/connect_to/get_info","ConnectedClient::disconnect/announce/send/poll/lookup"])
p("C11","Client lookup terminates, is complete and returns the right client",
"In any finite network, looking up a client terminates having asked no server more than once, however servers hint at each other and whichever of them are dead, slow, erroneous or lying; and if a live honest server reachable through hints of live servers knows the client, the lookup finds it. A returned record is for the requested key and type and carries that client's valid certificate for the returned server; otherwise the answer is 'not found'.",
["inputs","histories","fault_sequences","configurations"],
"every hint graph (cycles, duplicates, unreachable nodes), every placement of the client, every set of dead, faulty or lying servers, any client type filter",
"no test performs a lookup through the middleware",
[MC,MS,ROUTERT],[("queue of hinted servers with a used set",MC),("lookup handler: local, remote, hint",MS)],
["ConnectedClient::lookup"])
p("C12","Network traversal terminates and maps every reachable server",
"On any finite network, with cycles, duplicates, dead or erroneous servers, a traversal finishes after asking each server a bounded number of times, and afterwards the traversing server's routing table contains every server reachable over live servers' lists. An unreachable or misbehaving server affects at most what only it could have reported.",
["configurations","fault_sequences","histories"],
"every server graph and every set of dead, erroneous or slow servers",
"the traversal has no test",
["src/drivers/server/traversal/bfs_recursion.rs"],[("breadth-first queue over servers' lists","src/drivers/server/traversal/bfs_recursion.rs")],
["Traversal::traverse","Router::servers"])
p("C13","A sealed message reads back as sealed by its sender, or not at all",
"Reading a message with the receiver's key returns exactly the bytes the named sender sealed for that receiver, for any content, encoding, encryption, compression and level, after any trip over the network and through server storage. If content, signature, encoding, sender or receiver was altered or swapped anywhere on the way, reading fails or still returns bytes the named sender really signed - never altered data, never a crash. An encrypted message opens with no other client's key.",
["inputs","histories","fault_sequences"],
"all contents and encodings; all tampering, swapping and corruption a relay, storage or network can apply",
"tests seal one short text with one encoding and never tamper",
[MSG,"src/rest_api/types/message_encoding.rs","src/crypto/asymmetric/secret_key.rs","src/crypto/asymmetric/public_key.rs","src/crypto/compression/brotli.rs","src/crypto/compression/deflate.rs","src/crypto/encryption/aes256_gcm.rs","src/crypto/encryption/chacha20_poly1305.rs","src/crypto/encoding/base64.rs"],
[("sign, compress, encrypt, encode and back",MSG)],
["Message::create/read","ConnectedClient::send/poll"])
p("C14","Port forwards are accounted for",
"A successful open leaves exactly the requested port and protocols mapped on the gateway for the requested duration, a successful close leaves them unmapped, and a successful discard leaves none of this forwarder's mappings, under any interleaving of calls and any gateway failure. A mapping whose removal failed is reported as an error and is still removed by a later close or discard once the gateway works again; mappings of others are never touched.",
["schedules","fault_sequences","histories","inputs"],
"every sequence and interleaving of open, close and discard for any ports and protocols (TCP, UDP, both), every gateway failure",
"port forwarding has no test",
["src/port_forward/upnp.rs","src/port_forward/mod.rs"],[("table of made forwards","src/port_forward/upnp.rs")],
["PortForwarder::open/close/discard","the gateway's mapping table"])
p("C15","No peer can crash a node",
"Whatever bytes a peer sends - to a server's endpoints as requests or to a client as answers, including signatures, keys, certificates, tokens, encodings and messages of any length - parsing, validating, handling, storing and reading them ends in a normal result or an error. Given enough memory and disk, and a finite number of messages, it never panics, never hangs, and the node keeps serving honest peers afterwards.",
["inputs","histories","fault_sequences"],
"every byte sequence and every structurally mutated protocol message, interleaved with honest traffic",
"tests parse only well-formed values and two malformed ones",
["src/rest_api/request.rs","src/rest_api/response.rs",TOK,CERT,"src/crypto/asymmetric/public_key.rs",MSG,MS,MC],
[("fallible parsing of all wire types","src/rest_api/mod.rs")],
["server HTTP endpoints","client middleware results","Message::read","PublicKey::decode_encapsulated_signature"])
p("C16","The bundled HTTP client and server carry requests faithfully",
"Through the bundled HTTP client and server, the handler of the addressed method and path runs at most once per request, with exactly the JSON the caller posted and the caller's address, and the caller receives exactly the JSON the handler returned for that request, for any document (up to 2 MiB, numbers the JSON library carries exactly), any segmentation of the byte stream, however long the handler takes, and any number of concurrent connections. Bodies that are not exactly one valid JSON document, unknown paths, resets and cut connections yield an error to that caller only; without such a disturbance the request succeeds, and the server keeps serving others.",
["inputs","schedules","fault_sequences"],
"every JSON document, stream segmentation, connection interleaving, reset point and malformed request",
"neither adapter has a test",
["src/http/client.rs","src/http/server.rs"],[("axum routes and reqwest calls","src/http/server.rs")],
["HttpClient::get/post","HttpServer::get/post/serve"])
p("C17","Served client records always carry a valid certificate",
"Every client record a server hands out - in its client list or in a lookup answer, local or remote - carries a certificate signed by that client for the server the record is attributed to, exactly as the client supplied it, whatever requests honest and malicious peers have sent and whatever faults and restarts occurred.",
["inputs","histories","schedules","crash_points"],
"every history of honest and adversarial requests, faults and restarts",
"no test queries a server's endpoints",
[MS,ROUTER,CERT],[("connect and announce are validated before indexing",MS),("records are stored and read back verbatim",ROUTER)],
["GET /clients","POST /lookup"])
p("C18","Sending to a client's address reaches the server it is connected to",
"A message sent to a client's hyperborea address (with or without a type) is delivered to the inbox on the server that client most recently connected to and announced, and the client can poll it there; if the address cannot be resolved the send reports an error and no inbox changes. Sending succeeds only if the message is in the inbox of the server the lookup named.",
["histories","schedules","configurations","fault_sequences"],
"every network of servers, hint graph, order of connects and announcements, client type, and set of failures",
"no test resolves an address over a network or sends through the middleware",
["src/address.rs",MC,MS],[("address resolution by lookup","src/address.rs"),("send posts to the resolved server",MC)],
["ConnectedClient::send/poll with hyperborea:// addresses"])
p("C19","Codecs and wire types round-trip",
"Encoding, compression, encryption, key, token, request and response serialisation each read back exactly what was written for every value.",
["inputs"],"every value of every type",
"tests use a few values per type",
["src/crypto","src/rest_api/types","src/rest_api/requests"],[("to_json/from_json pairs","src/rest_api/mod.rs")],["to_json/from_json, encode/decode, compress/decompress, encrypt/decrypt"])
p("C20","URI parsing classifies every address",
"Every address string is parsed to the documented kind (hyperborea client with optional type, http, https, raw) with its key or host intact, or rejected when its key is invalid.",
["inputs"],"every string","the test covers each documented prefix once with a valid key",
["src/address.rs"],[("Address::from_str","src/address.rs")],["parse_uri"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
