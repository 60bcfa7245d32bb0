UB = 'crates/ipcbus/src/udp_procbus.rs'
UM = 'crates/ipcbus/src/udp_multicast.rs'
FN = 'static analysis: abstract interpretation of the MIR of the bus, with every effect on atomics, sockets, files and threads recorded in order on every path'

prop('C21', 'The bus value never goes down and every signal wakes all waiters',
     'Whatever threads and processes signal concurrently, the value of a ProcBus never decreases: it is only ever replaced by a value that is not smaller than the one it replaces. emit(v) returns v after v was written once, or, writing and signalling nothing, the greater value it found. An equal value is signalled again. '
     'After every such write all waiters are woken. A lost race is retried with the newer value. val() is the current value. '
     'next_deadline registers as a waiter before it waits and gives the value read after the wake-up, or nothing exactly when the deadline passed. None of these panics.',
     ['schedules', 'inputs'], 'all interleavings of emitters, listeners and waiters, all values',
     'Readers use the value as the number of committed transactions; a value that goes back or a lost wake-up makes a watcher miss saved points. A test cannot enumerate the interleavings.',
     [UB], [('emit', UB), ('_emit', UB), ('next_deadline', UB)], FN, 'proof',
     'Any number of lost exchanges (and up to three, unrolled). Each read may give any value, since other threads may write at any time; next_async is not covered.')

prop('C22', 'A bus listener takes exactly the well-formed signals of other processes',
     'init starts one listener thread, however often it is called. Of the datagrams received, exactly those signal their value to this process that come from a loopback address, have exactly 20 bytes, start with the id of this bus and carry another process number than the own one. The value is the last 8 bytes. It is signalled within the process only, never sent again. '
     'Every other datagram is ignored, whatever its length and content: no datagram ends the listener or makes it panic, and the ones after it are still handled.',
     ['inputs', 'histories'], 'all datagrams from any sender in any order',
     'The port is open to every local process; one stray datagram must not stop or corrupt change notification.',
     [UB, UM], [('init', UB), ('recv', UM), ('rx_thread', UM)], FN, 'proof',
     'Lengths 0 to 40, 64 and 1500 (thorough: also 65507) with symbolic bytes; the bus id and process number are one fixed value each, compared with every value of each single byte. Bytes are little-endian, as on the build target.')

prop('C23', 'What one process signals on the bus is what the other processes receive',
     'A bus made from a directory has as its id the 8 bytes of the file id there, big-endian; a file of another length gives no bus. Its port is that of the id. emit(v) of a value that is taken sends exactly one datagram: bus id, process number and v, 8, 4 and 8 bytes in native order. '
     'Another process on the same bus that receives it signals v; the sender ignores it. If sending fails the waiters of this process are still woken. '
     'Sender and listener are IPv4 datagram sockets: the listener is bound to the multicast group and port the datagrams go to, so that several processes can bind it (address and port are reused), and has joined that group on loopback; datagrams leave through loopback with a time to live of 0.',
     ['inputs', 'histories'], 'all values, ids and processes',
     'Change notification between processes rests on both sides agreeing on the format and address; the tests run in one process.',
     [UB, UM], [('ProcBus::new', UB), ('_emit', UB), ('setup_socket', UM)], FN, 'proof',
     'Delivery of loopback multicast by the kernel and the socket2 crate are trusted.')

prop('C24', 'Every database gets its own bus port and keeps it',
     'get_port reads and writes the registry procbus.map in the temporary directory only while it holds the lock of the lock file, from before the read until after the write. An id that has an entry gets the port of its first entry and the registry is not changed. '
     'Another id gets a port above 10501 and above every saved port (or 65535 if none is left), and exactly one entry, id and port in native order, is added after the old ones, which stay as they are. A missing registry is an empty one; any other read error never gives a port or a write. It does not panic unless locking or a file operation fails.',
     ['schedules', 'histories', 'inputs'], 'all registries, ids and concurrent processes',
     'Two databases on one port, or one database on two ports, silently breaks change notification; the races are between processes.',
     [UB], [('get_port', UB)], FN, 'exploration',
     'Lock order: any registry of up to 2 entries with symbolic contents. Ports: all combinations of 8 boundary ports in up to 2 entries (thorough: 3). Registries whose length is not a multiple of 10 are outside the property. fslock is trusted.')
