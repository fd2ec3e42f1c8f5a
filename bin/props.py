"""What each check consists of. tools/mkmanifest.py writes MANIFEST.json from this."""

TRUSTED = {
    'verus': 'Verus 0.2026.09.13, its encoding of Rust and Z3 are sound; rustc compiles what Verus was shown',
    'vstd': "vstd's specifications of the standard library (Vec, Option, String, HashMap, slices, UTF-8)",
    'extract': 'the extractor vext: it copies the source text of every function and only applies the rewrites counted under "rewrites" and listed in DESIGN.md (logging dropped, named stand-ins for calls the verifier has no specification for, ghost arguments added)',
    'socket': 'contracts assumed on tokio sockets: a read appends the next 1..n bytes of the incoming stream to the buffer or reports the end (0) or an error; a write takes a non-empty prefix of the buffer or fails; write_all_buf takes everything or fails having taken a prefix',
    'bytes': 'contracts assumed on bytes::BytesMut / Bytes (put, get, split_to, reserve, remaining, freeze) as documented',
    'hash': 'HashMap<String, _> behaves as a map on the text of its keys (String hashing and equality are lawful)',
    'chan': 'contracts assumed on tokio channels: a send enqueues exactly the value or fails, recv takes the oldest, a oneshot delivers its value or nothing',
    'alloc': 'allocation does not fail',
    'argon2': 'the argon2 crate verifies a password against a hash correctly and does not panic',
    'files': 'std::fs reads what is in the file; lines() splits at newlines',
    'config': 'the config crate merges its sources in the order they are given, the later ones winning',
    'chrono': 'chrono adds a number of seconds to an instant and compares instants exactly; the contract requires the limit to lie within its range',
    'float': 'for 16 bits of n, 8 of m and d a power of two up to 64, `(n as f32 * (m / d)) as i64` is n * m / d rounded down (every step but the last is exact in single precision); the search tries it for every keep-alive',
    'service': 'the packet handler is the only sender of requests to the messaging service (C12 is about the service itself), sends to it succeed and are answered as the contract of MessagingService::run says; `dyn IdentityManager + Send + Sync` is treated as `dyn IdentityManager`',
    'select': 'tokio::select! completes exactly one branch; the branch that receives events loses none when another one completes',
    'start': 'a task given to tokio::spawn runs, and is the method named there; what comes after the wait for Ctrl-C is dropped (shutting down, C27); whether an address can be bound does not change while the others are; src/main.rs passes the name of the configuration file on (the search runs the real binary)',
    'glue': 'a task given to tokio::spawn runs: it is verified as if it ran where it is started (its own events in their order; no order between tasks is claimed); an accepted socket comes with the address of its peer, its halves belong to it',
    'uuid': 'Uuid::new_v4().to_string() is a text of 36 characters, and no two calls give the same',
    'prophecy': 'the bytes a socket is going to deliver and the events a queue is going to hold until it is closed are a finite sequence',
    'serde': 'the serde derives and the config crate decode a settings table into the declared structures as their documentation says; the declarations themselves (names, types, attributes) are compared with the contract',
    'regex': 'the regex crate, for the one pattern the tool builds (line begin, the escaped name, a colon, the rest of the line with its end, multi-line mode): it compiles, and its leftmost match is the first such line; replacement puts the text in its place, `$$` standing for a dollar sign',
    'hashes': 'Argon2::hash_password succeeds and gives a hash of that password and no other, without line break or carriage return',
    'cli': 'clap provides the values of the command line as build_arguments declares it (its text is compared with the contract): file and user are present, and the password unless deletion is asked for',
    'write': 'writing the file succeeds and leaves exactly what was written',
}

T = ['types', 'transport']
M = ['types', 'messaging']
H = ['types', 'messaging', 'auth', 'settings', 'handler']
PW = ['types', 'auth', 'passwd']
TOOL = ['verus', 'vstd', 'extract', 'alloc', 'files', 'regex', 'hashes', 'cli', 'write']
L = ['types', 'transport', 'listener']
APP = ['types', 'messaging', 'auth', 'settings', 'handler', 'listener', 'app']
SERVICE = ['verus', 'vstd', 'extract', 'hash', 'alloc']
HANDLER = ['verus', 'vstd', 'extract', 'hash', 'alloc', 'bytes', 'chan', 'service', 'select', 'prophecy']
READ = ['verus', 'vstd', 'extract', 'bytes', 'socket', 'alloc']


def p(features, search, seconds=(15, 240), areas=(), trusted=(), level=None, bounded=(), assume=(), **kw):
    return dict(features=features, search=search, seconds=seconds, areas=list(areas), trusted=list(trusted), level=level or ('proof' if areas else 'exploration'),
                bounded=list(bounded), assume=list(assume), **kw)


PROPS = {
    'C01': p(['transport'], 'well-formed packets and their mutations over a loopback TCP connection in random pieces, compared with an independent decoder', areas=T, trusted=READ),
    'C02': p(['transport'], 'malformed and truncated packets over a loopback TCP connection, compared with an independent decoder', areas=T, trusted=READ),
    'C03': p(['transport'], 'arbitrary bytes over a loopback TCP connection; panics and cases that do not end are violations', areas=T, trusted=READ),
    'C04': p(['transport'], 'sequences of stream reads and of packets, in random pieces and with random buffer sizes', areas=T, trusted=READ),
    'C05': p(['transport'], 'packets written to a loopback TCP connection, compared with an independent encoder', areas=T, trusted=READ),
    'C06': p(['transport'], 'packets written to a slow reader with small socket buffers and small stream buffers, connections cut', areas=T, trusted=READ),
    'C07': p(['transport'], 'packets written and read back, followed by other bytes', areas=T, trusted=READ),
    'C08': p(['direct', 'queue'], 'histories of subscriptions on the messaging service, compared with a reference model', fallback=['queue'], areas=M, trusted=SERVICE),
    'C09': p(['direct', 'queue'], 'histories of subscribing and unsubscribing on the messaging service, compared with a reference model', fallback=['queue'], areas=M, trusted=SERVICE),
    'C10': p(['direct', 'queue'], 'histories of connects, subscriptions and ends on the messaging service, compared with a reference model', fallback=['queue'], areas=M, trusted=SERVICE),
    'C11': p(['direct', 'queue'], 'histories of connects, reconnects and ends on the messaging service, compared with a reference model', fallback=['queue'], areas=M, trusted=SERVICE + ['chan']),
    'C12': p(['queue'], 'random requests through the queue of the running service, requesters giving up, compared with a reference model', areas=M, trusted=SERVICE + ['chan']),
    'C13': p(['direct', 'queue'], 'histories of operations and lookups on the messaging service, compared with a reference model', fallback=['queue'], areas=M, trusted=SERVICE + ['chan']),
    'C14': p(['handler'], 'random events to the running packet handler and messaging service, every queue compared with a reference model', areas=H, trusted=HANDLER),
    'C15': p(['handler'], 'random events to the running packet handler and messaging service, every queue compared with a reference model', areas=H, trusted=HANDLER),
    'C16': p(['handler'], 'random events to the running packet handler and messaging service, every queue compared with a reference model', areas=H, trusted=HANDLER + ['argon2', 'files']),
    'C17': p(['handler'], 'random events to the running packet handler and messaging service, every queue compared with a reference model', areas=H, trusted=HANDLER),
    'C18': p(['users'], 'random password files and log-ins, compared with a reference model', areas=['types', 'auth'], trusted=['verus', 'vstd', 'extract', 'hash', 'alloc', 'argon2', 'files']),
    'C19': p(['listener'], 'byte streams sent to the running listener, cut or reset, events compared with an independent decoder', areas=L, trusted=READ + ['chan', 'prophecy', 'uuid', 'glue']),
    'C20': p(['listener'], 'packets and disconnects queued to a connection of the running listener, bytes at the peer compared with an independent encoder', areas=L, trusted=READ + ['chan', 'prophecy', 'uuid', 'glue']),
    'C21': p(['handler'], 'random events and dropped connections, very deep filters included; a panic, an abort or an unanswered probe is a violation', areas=H, trusted=HANDLER + ['argon2', 'files']),
    'C22': p(['keepalive'], 'every keep-alive at the instants around its limit, then random ones', seconds=(8, 60), areas=M, trusted=SERVICE + ['chrono', 'float']),
    'C23': p(['passwd'], 'the real tool run on random files and user names, file compared line by line', seconds=(20, 300), tool='ratelmq-passwd', areas=PW, trusted=TOOL),
    'C24': p(['passwd'], 'the real tool run on random files, result loaded and tried in the broker', seconds=(20, 300), tool='ratelmq-passwd', areas=PW, trusted=TOOL + ['hash', 'argon2']),
    'C28': p(['app'], 'the real binary run with 1 to 40 addresses, clients on each of them publishing to clients on each of them', tool='ratelmq', areas=APP, trusted=['verus', 'vstd', 'extract', 'alloc', 'chan', 'hash', 'argon2', 'files', 'config', 'serde', 'start']),
    'C25': p(['settings'], 'random settings files and environment variables, compared with the layering rule', areas=['types', 'settings'], trusted=['verus', 'vstd', 'extract', 'alloc', 'config', 'serde']),
}

NOT_APPLICABLE = {
    'C26': 'a liveness property under scheduling ("is not delayed by"): contracts of a deductive verifier state what holds when a call returns, not that it returns in spite of a full queue elsewhere; the code in fact awaits a send into a full queue of a stuck subscriber (head-of-line blocking), so no postcondition could be proved either',
    'C27': 'a liveness property of several tasks, signals and the runtime: no function contract expresses "eventually every task has ended"; the functions involved are glue around tokio::select and task handles without a verifiable post-state',
}
