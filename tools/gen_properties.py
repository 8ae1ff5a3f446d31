#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run "python3 tools/gen_properties.py" after editing.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
U='tracker/udp/udptracker.go'; M='tracker/storage/map/'; H='tracker/http/'
UP=[U,'tracker/udp/announce.go','tracker/udp/connect.go','tracker/udp/scrape.go','tracker/udp/error.go','tracker/udp/protocol/']

p('C01','No UDP packet can crash the tracker',
 'No UDP datagram, whatever its length, content or sender, makes the tracker panic or terminate: every index, slice, conversion and arithmetic operation performed while handling a datagram is within bounds for every possible datagram.',
 ['inputs'],'all datagrams of every length and content, from every sender, in every tracker state',
 'The UDP tests send a handful of well-formed packets; the property ranges over every byte string up to the buffer size.',
 UP,[('minimum length test and per-action length tests before fields are read',U)])
p('C02','No HTTP request can crash the tracker',
 'No sequence of bytes sent to the HTTP tracker port, including malformed request lines, escapes, base64 requests and forwarding headers, makes the tracker panic or terminate. This holds for the regular build and for the app-engine build.',
 ['inputs'],'all byte strings received on an HTTP connection, in the default and the heroku build',
 'Parser tests and one fuzz seed sample a few requests, and none exercise the worker loop; index arithmetic must hold for every input.',
 [H+'worker.go',H+'parser.go',H+'announce.go',H+'scrape.go',H+'forwarded_appeng.go'],[('bounds tests in the request parser',H+'parser.go')])
p('C03','Corrupt saved files never crash or exhaust the tracker at start-up',
 'Loading a database backup or a saved UDP connection file of arbitrary content either succeeds or reports an error; it never panics. No allocation made while loading is sized by a number taken from the file without a bound on it.',
 ['inputs','fault_sequences'],'all byte contents of the backup and the connection file, including truncation at every offset',
 'Tests load back only what the same process just wrote.',
 [M+'encode_binary.go',M+'backup_file.go',M+'backup_pg.go','tracker/udp/conndb.go'],[('decode error returns, address length test',M+'encode_binary.go')])
p('C04','A request is interpreted from its own bytes only',
 'The tracker interprets a UDP datagram or HTTP request from exactly the bytes received for it: bytes left in a reused receive buffer by earlier requests are never parsed, logged or reflected.',
 ['histories'],'all sequences of requests handled by the same worker or buffer',
 'Needs two requests through the same buffer with a particular length relation; tests use fresh buffers of exact length.',
 [H+'worker.go',H+'parser.go',U],[('slicing of the receive buffer to the received size',H+'worker.go')])
p('C05','UDP announces and scrapes need the connection ID issued to that source',
 'When connection validation is enabled, a UDP announce or scrape reads or changes torrent state only if the connection ID it carries equals the one recorded for exactly the source IP address and port the datagram came from; otherwise it is answered with an error and has no other effect.',
 ['inputs','histories'],'all datagrams and all prior connect histories',
 'The single bad-connection-ID test is a known failing one and covers one ID; the guarantee quantifies over every ID, address and port.',
 [U,'tracker/udp/conndb.go'],[('lookup by source address and port before dispatch',U)])
p('C06','UDP connect issues an unguessable ID and records it for the sender',
 'Every UDP connect request is answered with an ID freshly drawn from a cryptographically secure source, and exactly that ID is recorded for exactly the source address and port before the answer is sent. No other request creates or changes a recorded ID.',
 ['inputs','histories'],'all connect requests and interleavings',
 'Tests check that a following announce works once; unpredictability and the binding to the source cannot be sampled.',
 ['tracker/udp/connect.go','tracker/udp/conndb.go'],[('random ID, record, reply',"tracker/udp/connect.go")])
p('C07','Connection ID expiry removes exactly the expired entries',
 'Trimming the UDP connection database removes every entry older than the configured expiry and no entry that is not older. The age of an entry is counted from the moment its ID was issued.',
 ['histories'],'all contents of the connection database and all expiry settings',
 'One test removes one entry after one second; boundary and bystander entries are not covered.',
 ['tracker/udp/conndb.go'],[('age comparison in the trim loop','tracker/udp/conndb.go')])
p('C08','Each handled UDP packet gets exactly one reply, to its sender',
 'Every UDP datagram of at least the minimum request size is answered with exactly one datagram, sent to the address it came from; shorter datagrams are not answered.',
 ['inputs'],'all datagrams and all error paths',
 'Tests read one reply and cannot see second replies, missing replies on rare error paths or replies sent elsewhere.',
 UP,[('one send per handler path',U)])
p('C09','UDP replies have the wire format of the UDP tracker protocol',
 'Every UDP reply consists of the big-endian action and the transaction ID of the request it answers, followed by exactly the fields the protocol defines for that action in order: connection ID for connect; interval, leechers, seeders and peers for announce; seeders, completed and leechers per torrent for scrape; a message for errors (action 3). The heartbeat reply is the single byte 0xFF.',
 ['inputs'],'all requests and all database contents',
 'No test decodes a scrape reply, and client-side decoders of the same package mirror encoder mistakes.',
 ['tracker/udp/protocol/','tracker/udp/announce.go','tracker/udp/connect.go','tracker/udp/scrape.go','tracker/udp/error.go'],[('encoders','tracker/udp/protocol/')])
p('C10','UDP announces are applied as the protocol defines',
 'A UDP announce is decoded from the protocol\'s fixed offsets and acted on with those values: an announce with port zero is answered with an error and changes nothing; otherwise event stopped removes that peer ID from that torrent and stores nothing, and any other event stores the announced port and peer ID under the announced info hash, complete exactly if event is completed or left is zero. The reply\'s counts and peers are those of the announced torrent, in the address family of the requester, for the requested number of peers: the default when not positive, never more than the limit when positive.',
 ['inputs'],'all announce field values, configurations and database states',
 'Tests send two announces with one event; most field and configuration combinations are never sent.',
 ['tracker/udp/announce.go','tracker/udp/protocol/announce.go',U],[('field decode and dispatch','tracker/udp/announce.go')])
p('C11','UDP scrapes report each requested torrent in order',
 'A UDP scrape of up to 74 info hashes is answered with one entry per requested info hash, in request order, each holding the complete and incomplete counts of that torrent; a scrape of more than 74 is answered with an error. A scrape never changes torrent state.',
 ['inputs'],'all scrape requests and database states',
 'No test exercises a successful scrape.',
 ['tracker/udp/scrape.go','tracker/udp/protocol/scrape.go'],[('loop over requested hashes','tracker/udp/scrape.go')])
p('C12','HTTP announces are validated and applied exactly as requested',
 'An HTTP announce changes torrent state only if its info hash and peer ID are exactly 20 bytes and, unless it is a stopped event, its port is a number from 1 to 65535 and its numwant, if given, a non-negative number. It then stores (or, for stopped, removes) exactly the announced peer: info hash, peer ID and port from the parameters of those names, complete exactly if event is completed or left is zero; and the peers returned are those of that torrent, at most numwant and never above the configured limit when numwant is given.',
 ['inputs'],'all query strings and configurations',
 'Tests call the handler with a few parameter structs; parameter routing from the request is untested.',
 [H+'announce.go',H+'worker.go'],[('validation before database calls',H+'announce.go')])
p('C13','HTTP connections are always bounded in time and closed',
 'Every accepted HTTP connection has its read and write deadlines set from the configuration before anything is read or written, and is closed exactly once on every path before the worker accepts another one.',
 ['inputs','fault_sequences'],'all requests, read errors and handler paths',
 'Leaked connections or missing deadlines only show under slow or failing clients on particular paths.',
 [H+'worker.go'],[('deadlines after accept and close on every path',H+'worker.go')])
p('C14','Each HTTP request gets exactly one response with the right status',
 'Every request read from an HTTP connection is answered with exactly one response: 400 for a malformed or non-GET request, 404 for an unknown path, and status 200 with the announce, scrape, error, heartbeat, statistics or file body otherwise.',
 ['inputs'],'all requests and handler paths',
 'Double or missing responses on rare paths are invisible to tests that call handlers directly.',
 [H+'worker.go',H+'announce.go',H+'scrape.go',H+'error.go',H+'wrappers.go'],[('one write sequence per path',H+'worker.go')])
p('C15','HTTP announce and scrape bodies are well-formed bencoding',
 'Every announce, scrape and error body, except the empty body that acknowledges a stopped announce, is one complete bencoded dictionary: every string carries its exact length, every key is followed by exactly one value, and every opened dictionary or list is closed, for all keys and values including empty and binary ones.',
 ['inputs'],'all requests, database contents and encoder inputs',
 'Tests compare a few fixed outputs; length prefixes and nesting must agree for every value.',
 ['bencoding/dictionary.go','bencoding/encoding.go',H+'announce.go',H+'scrape.go',H+'error.go',M+'hash.go'],[('length-prefixed writers','bencoding/dictionary.go')])
p('C16','HTTP scrapes report the counts of exactly the requested torrents',
 'An HTTP scrape answers with a files dictionary holding, for every info_hash among the request\'s first 45 parameters, that hash as key and the complete and incomplete counts of that torrent; a hash that is not 20 bytes, or no hash at all, is answered with a failure instead. A scrape never changes torrent state.',
 ['inputs'],'all scrape query strings and database states',
 'No test runs the HTTP scrape handler.',
 [H+'scrape.go',H+'worker.go'],[('loop over parameters',H+'scrape.go')])
p('C17','A peer is stored under the address it really came from',
 'The IP address stored for an announcing peer is the source address of its datagram or connection (or, in the app-engine build only, the last address of the forwarding header), with IPv4-mapped IPv6 addresses stored as IPv4. Nothing else in a request can influence the stored address.',
 ['inputs'],'all requests, in the default and the heroku build',
 'Address spoofing parameters and mapped addresses are not tested.',
 [U,H+'worker.go',H+'forwarded.go',H+'forwarded_appeng.go'],[('address derived from the transport',U)])
p('C18','A stored peer holds exactly what was announced last',
 'After an announce is stored, that torrent lists under the announced peer ID exactly one peer whose address, port, completeness are the announced ones and whose last-seen time is the time of that announce, whether or not the peer or torrent existed before and whatever a recycled record held. Other peers and torrents are unchanged.',
 ['inputs','histories'],'all prior database states and announce values',
 'Tests save into a fresh database and read one peer back.',
 [M+'peer.go'],[('record update',M+'peer.go')])
p('C19','Stopping removes exactly that peer',
 'Removing a peer removes exactly the record of that peer ID in that torrent, if there is one, and leaves every other peer and torrent unchanged; removing an unknown peer or torrent changes nothing.',
 ['inputs','histories'],'all prior database states',
 'Tests drop one existing peer.',
 [M+'peer.go'],[('lookup and delete',M+'peer.go')])
p('C20','Concurrent announces are never lost',
 'For every interleaving of announces, stops and expiry runs, a completed announce leaves its peer reachable under its torrent unless that peer was later stopped or expired: no announce is written to a torrent record that has been or is being discarded, and creating a torrent never replaces one that holds peers.',
 ['schedules'],'all interleavings of saves, drops, trims and reads',
 'The tests are single-threaded; the windows between lookup and update are a few instructions wide.',
 [M+'peer.go',M+'memory.go'],[('torrent lock taken before the database lock is released',M+'peer.go'),('emptiness re-tested under both locks',M+'memory.go')])
p('C21','Seed and leech counts of a torrent match its peers',
 'Whenever a torrent is not being modified, its complete and incomplete counts equal the numbers of its stored peers that are and are not complete, including after restarts, for swarms of any size a tracker can hold; the counts reported for a torrent are those counts, read together.',
 ['histories','schedules'],'all histories of saves, drops, trims and restores, up to 2^31 peers',
 'Counts drift only after particular transitions or beyond 65535 peers.',
 [M+'peer.go',M+'memory.go',M+'encode_binary.go',M+'hash.go'],[('count updates paired with membership updates',M+'peer.go')])
p('C22','Global seed, leech and unique-IP metrics match the database',
 'The published totals of seeds, leeches and unique IP addresses change in step with the stored peers: each stored peer is counted once in the class it is in and once for its address, moved when its class or address changes, and uncounted when it is removed. After a restore they are recomputed from the restored peers.',
 ['histories'],'all histories of saves, drops, trims and restores (regular build)',
 'No test looks at the metrics.',
 [M+'peer.go',M+'expvar.go','tracker/stats/stats_slow.go'],[('metric updates paired with membership updates',M+'peer.go')])
p('C23','Expiry removes every expired peer and nothing else',
 'An expiry run removes every peer last seen longer ago than the configured expiry and no other peer, and removes torrents that hold no peers and no others.',
 ['histories'],'all database contents and expiry settings',
 'The one trim test uses expiry zero, one peer per torrent.',
 [M+'memory.go'],[('age comparison in the trim loop',M+'memory.go')])
p('C24','Peer lists hold only peers of the torrent, at most as many as asked',
 'A peer list holds only addresses and ports of peers stored under the requested torrent, each at most once, at most the requested number (per address family for compact lists), IPv4 peers as 6 bytes and IPv6 peers as 18 bytes in their own list, network byte order; for an unknown or empty torrent or a request for zero peers it is empty. Contents of recycled buffers never appear.',
 ['inputs','histories'],'all database contents, requested numbers and pool states',
 'Recycled buffers, mixed families and small requests are not tested.',
 [M+'hash.go','pools/pools.go'],[('truncation to what was written',M+'hash.go')])
p('C25','Shared state is free of data races',
 'No two concurrently running parts of the tracker access the same torrent, peer, connection, or metric data, at least one writing, without a common lock or atomic operation, for every interleaving of requests, expiry, backup and metric publication.',
 ['schedules'],'all interleavings after start-up',
 'No test runs handlers concurrently, and the race detector only sees executed interleavings.',
 [M+'memory.go',M+'peer.go',M+'hash.go',M+'encode_binary.go','tracker/udp/conndb.go','tracker/stats/'],[('mutex per database, torrent, connection database and IP table',M+'memory.go')])
p('C26','Locks are always released and can never deadlock',
 'Every lock taken while serving requests, expiring, or saving is released on every path including errors, is never re-acquired by the goroutine holding it, and locks are nested in one global order. No lock is held across network, disk or database-server operations.',
 ['schedules','fault_sequences'],'all paths and interleavings',
 'A leaked lock or inverted order needs an error path or a particular interleaving to hang.',
 [M+'memory.go',M+'peer.go',M+'hash.go',M+'encode_binary.go',M+'encode_gob.go','tracker/udp/conndb.go'],[('lock/unlock pairs',M+'peer.go')])
p('C27','Recycled objects are never used or recycled twice after release',
 'An object handed back for recycling (peer record, peer-list buffer, dictionary, receive buffer) is no longer reachable from the database or an unfinished reply and is not used or handed back again by the releasing request, on every path.',
 ['schedules','histories'],'all paths of all requests',
 'Use after release only corrupts another request under a particular timing.',
 ['pools/pool.go',M+'peer.go',M+'hash.go',H+'announce.go',H+'scrape.go',H+'error.go','tracker/udp/announce.go',U],[('release after last use',H+'announce.go')])
p('C28','Shared constant responses are never modified',
 'Byte sequences shared by all requests (response prefixes, heartbeat messages, cached files, statistics header) are never written to: no request or reply path stores into them or hands them to something that does.',
 ['schedules','histories'],'all requests and interleavings',
 'Corruption of a shared prefix shows only in later responses or under concurrency.',
 [H+'consts.go',H+'wrappers.go',H+'fakeresp.go','tracker/udp/protocol/types.go','tracker/utils/unsafemanip/manipulation.go'],[('copying append',H+'announce.go')])
p('C29','Backups are read back field for field as they were written',
 'What a backup of the database, or a saved connection table in binary form, writes is read back as the same fields in the same order with the same widths and byte order, and each value read is restored to the place the written value came from.',
 ['inputs'],'all database and connection table contents',
 'One database with one peer is round-tripped.',
 [M+'encode_binary.go','tracker/udp/conndb.go'],[('encoder and decoder field sequences',M+'encode_binary.go')])
p('C30','A backup taken under load is consistent',
 'A backup taken while announces, stops and expiry are running is always loadable: for every torrent the number of peers it declares equals the number of peer records that follow, all taken at one moment.',
 ['schedules'],'all interleavings of a backup with requests and expiry',
 'Requires an announce between writing the count and the records.',
 [M+'encode_binary.go'],[('count and records under one lock',M+'encode_binary.go')])
p('C31','A crash while saving never destroys the previous save',
 'The backup file and the saved connection file are replaced atomically: at every moment of a save the file at its path holds either the complete previous or the complete new contents, and the new contents are on stable storage before they replace the old.',
 ['crash_points'],'all crash points and I/O errors during a save',
 'No test interrupts a save.',
 [M+'backup_file.go','tracker/udp/conndb.go','tracker/utils/writefile.go'],[('write to a temporary file, sync, rename','tracker/utils/writefile.go')])
p('C32','Failures to save or load are reported, never swallowed',
 'Every failure while encoding, writing, reading or decoding saved state reaches the caller as an error or is logged as a failure; a save that failed is never reported as successful and never replaces the previous save.',
 ['fault_sequences'],'all failures of encoding and I/O operations',
 'No test injects I/O or encoding failures.',
 [M+'backup_file.go',M+'backup_pg.go',M+'encode_binary.go',M+'memory.go','tracker/udp/conndb.go',U,'tracker/utils/writefile.go'],[('error propagation',M+'backup_file.go')])
p('C33','A backup that cannot be loaded stops start-up',
 'If the configured backup exists but cannot be read or decoded, or the storage or backup type is unknown, the tracker refuses to start instead of starting with an empty database; it starts empty only when there is no backup yet. A failure to load saved UDP connections only empties the connection table.',
 ['fault_sequences','configurations'],'all load failures and configurations',
 'Tests use the backup type none.',
 ['tracker/storage/database.go',M+'memory.go',M+'backup_file.go',M+'backup_pg.go','tracker/tracker.go',U],[('error chain from load to fatal exit','tracker/tracker.go')])
p('C34','Shutdown stops serving, then saves everything, then exits',
 'On an interrupt or termination signal the tracker first stops its UDP and HTTP servers, then saves the peer database and then or before that the UDP connections, and only then exits with success; a save signal saves both and keeps running. A failing save of one never prevents the save of the other.',
 ['histories','fault_sequences'],'all signals and save failures',
 'The test sends one termination signal and checks nothing after it.',
 ['tracker/signalhandler.go',U,H+'httptracker.go'],[('signal loop','tracker/signalhandler.go')])
p('C35','Server loops survive errors and end when closed',
 'A receive or accept error other than the socket having been closed never ends a worker, and a closed socket always does; the server closes its socket when shutdown is requested and returns.',
 ['fault_sequences'],'all receive and accept errors',
 'Tests never make accept or receive fail.',
 [U,H+'worker.go',H+'httptracker.go'],[('error classification in the loops',U)])
p('C36','Nothing is served or loaded before its prerequisites are ready',
 'At start-up the configuration is verified as loaded before it is used, object pools exist before the database loads a backup or a request is served, and the database is loaded and its metrics synchronised before any listener accepts requests; a missing configuration ends start-up with an error message, not a crash.',
 ['configurations'],'all configurations, including ones that restore a non-empty backup',
 'Tests start with an empty database and a valid configuration.',
 ['tracker/tracker.go','tracker/storage/database.go','controller/controller.go','config/config.go'],[('start-up order','tracker/tracker.go')])
p('C37','Request metrics count every request once and lose none',
 'Every answered request adds exactly one to the hit counter; every connect, announce and scrape that is answered adds one to the counter of its kind (at most one if the answer is an error) and none to another kind; every error answered adds one to the client or server error counter. Publication moves each counter to the statistic of its own name without losing requests counted concurrently.',
 ['schedules','inputs'],'all requests and interleavings with publication',
 'No test reads the published statistics.',
 ['tracker/stats/publish.go',U,H+'worker.go','tracker/udp/announce.go','tracker/udp/connect.go','tracker/udp/scrape.go',H+'announce.go',H+'scrape.go'],[('atomic counters swapped on publication','tracker/stats/publish.go')])
p('C38','Listeners bind exactly the configured address or fail',
 'The UDP and HTTP servers listen on exactly the configured IP address and port (all interfaces only if no address is configured); an invalid address or a failing bind ends start-up with an error. Profiling is served on the loopback address only.',
 ['configurations'],'all configured addresses and ports',
 'Tests bind one default address.',
 [U,H+'httptracker.go','tracker/tracker.go','tracker/pprof.go'],[('address construction',U)])
p('C39','Periodic jobs run at their own configured interval, or not at all when disabled',
 'Database backup, peer expiry, connection expiry and metric publication each run periodically at the interval configured for that job, and are not started when that interval is zero.',
 ['configurations'],'all interval settings',
 'Tests set intervals of an hour so no job ever runs.',
 [M+'memory.go',U,'tracker/tracker.go','tracker/stats/publish.go','tracker/utils/runon.go'],[('guards before starting the jobs',M+'memory.go')])
p('C40','The controller starts one tracker and stops it cleanly, in bounded time',
 'Start launches a tracker only if none is running by process file, process and heartbeat, and records the new process; stop signals the recorded process, reports success and clears the record only once that process is gone, and gives up with an error after a bounded time. Status always returns in bounded time and releases its connections.',
 ['fault_sequences','histories'],'all states of the process file, the process and the network',
 'Only reading and writing the process file is tested.',
 ['controller/controller.go','controller/pidfile.go','cli_entry.go'],[('status test before start, wait loop in stop','controller/controller.go')])
p('C41','Only embedded public files are served, at their exact paths',
 'The HTTP servers serve embedded files at exactly their full path (and the index at /), answer other paths with not found, and never serve the embedded configuration file.',
 ['inputs'],'all request paths',
 'Tests check two file names of the cache.',
 ['config/embed.go',H+'worker.go','tracker/tracker.go'],[('cache built without the configuration','config/embed.go')])
p('C42','Postgres backups save all data with constant SQL and leak nothing',
 'A Postgres backup stores the complete encoded database as a bound parameter of a constant statement and restores the most recently stored one; every result set is released, and an empty database can be saved and restored.',
 ['histories','inputs'],'all database contents and save histories',
 'No test talks to Postgres.',
 [M+'backup_pg.go'],[('INSERT and SELECT statements',M+'backup_pg.go')])
p('C43','Saved UDP connections survive a restart unchanged',
 'The saved connection table is written from and restored to the live table as a whole, so an ID issued before a restart is still accepted only from the address and port it was issued to, and still expires counted from its original issue time.',
 ['histories'],'all connection tables',
 'One table with two entries is round-tripped.',
 ['tracker/udp/conndb.go',U],[('encoder and decoder of the whole table','tracker/udp/conndb.go')])
# --- not applicable to static analysis here (reasons in MANIFEST.json and DESIGN.md)
p('C90','HTTP bodies use canonical bencoding and peer dictionaries',
 'Announce and scrape bodies list dictionary keys in sorted order and non-compact peers as a list of dictionaries.',
 ['inputs'],'all responses','The existing tests pin the opposite.',
 [H+'announce.go',M+'hash.go'],[('none today',H+'announce.go')])
p('C91','The tracker keeps up with its load',
 'Request throughput, latency and memory stay within the bounds advertised for the configured number of workers.',
 ['schedules','inputs'],'all loads','Tests measure nothing under load.',
 ['README.md',H+'worker.go',U],[('worker pools',U)])
p('C92','Peers returned are a fair sample of the swarm',
 'When a torrent has more peers than requested, every peer is returned to others with comparable frequency.',
 ['histories'],'all swarms','A distribution cannot be settled by samples in unit tests.',
 [M+'hash.go'],[('map iteration order',M+'hash.go')])
p('C93','Fragmented HTTP requests are handled like whole ones',
 'An HTTP request delivered in several TCP segments is handled like one delivered in a single segment.',
 ['schedules'],'all segmentations','Needs segment timing.',
 [H+'worker.go'],[('single read per connection',H+'worker.go')])
p('C94','Periodic jobs run at exact multiples of their interval',
 'Periodic jobs run once per interval, at wall-clock multiples of the interval, whatever the duration of the job.',
 ['schedules'],'all job durations and clock changes','Timing is not tested.',
 ['tracker/utils/runon.go'],[('tick computation','tracker/utils/runon.go')])
p('C95','Old Postgres backups are pruned',
 'Stored Postgres backups older than the retention or beyond the maximum number are removed.',
 ['histories'],'all save histories','No test talks to Postgres.',
 [M+'backup_pg.go'],[('retention statements, never executed',M+'backup_pg.go')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
